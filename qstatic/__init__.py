"""Static checker for qutech/qtune: dataflow over the syntax tree of /repo/qtune."""
