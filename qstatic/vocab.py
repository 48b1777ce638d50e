"""Names of the methods, properties and functions of the package on the reference tree: a method with another name
is an extracted helper and is followed into, whoever it is called on."""
METHODS = set("""
__call__ __createMatrixH __deepcopy__ __del__ __dir__ __enter__ __exit__ __getattr__ __getitem__ __getstate__ 
__init__ __iter__ __len__ __new__ __repr__ __str__ _add_qtune_to_path _clean_html _close_child 
_connect_to_engine _eval _from_hdf5 _get_dtype _get_field _get_id _get_item_array _get_item_cell 
_get_sorted_simplex _import_all _init_special_measure _initialize _insert_into_simplex _join_worker 
_remove_plot _repr_pretty_ _set_field _start_engine _to_hdf5 _transform_int _transform_slice _transform_tuple 
_unravel_gradient_covariance_matrix _work _writer_target active_estimator all_estimators_ready 
append_autotuner asynchrone_writer auto_tuner calculate_gradient_non_orthogonal change_position change_targets 
cheap_evaluators clear_all_temporary_data close configure_logging cost_function cov covariance 
create_gradient_name create_name_parameter_variance current_position current_tuner_index current_tuner_status 
current_values decorate descale_values detune_simulation emit engine epsilon estimate evaluate evaluate_error 
evaluator_data evaluator_names evaluators expensive_evaluators experiment extract_diagonal_from_data_frame 
extract_gradients_from_hierarchy extract_parameters_from_hierarchy extract_voltages_from_hierarchy 
find_lead_transition find_stepes_point_sensing_dot finite_difference_estimator fit_results from_hdf5 
from_scratch func_inter_dot_coupling func_lead_times_v1 func_lead_times_v2 func_load_time gate_names 
gate_voltage_names get_clear_axes get_costs get_current_tuner get_entry_cost get_evaluator_data get_file_name 
get_gate_values get_git_info get_gradient_covariances get_gradient_variances get_gradients get_next_voltages 
get_orthogonal_vector get_parameter_std get_parameter_values get_positions get_reload_path get_variable 
get_version grad gradient_controlled_parameter_names gradient_estimators gradient_min_evaluations 
high_res_datetime history initial_fit_arguments is_tuned is_tuning_complete iterate jacobian join 
kalman_estimator last_evaluation_failed last_parameters_and_variances last_voltages load_auto_tuner 
load_auto_tuner_from_reload_widget load_directory load_file 
load_pickle_charge_diagram_gradient_covariance_noise_from_histogram load_simulation log log_exceptions logger 
logging_decorator make_target make_view matlab_files_path measure measure_legacy measurements mode_options 
moving_average_filter name new_find_lead_transition_index nth nth_diff number_of_stored_iterations 
parameter_names parameters pause plot_1dim_sensing_dot_scan plot_2dim_sensing_dot_scan plot_average_evaluator 
plot_evaluator_data plot_gradients plot_inter_dot_tc plot_lead_time plot_load_time plot_parameters 
plot_raw_data plot_raw_data_2_dim_marks plot_raw_data_fit plot_raw_data_vertical_marks plot_selection_change 
plot_single_evaluator_data plot_transition plot_tuning plot_voltages process_raw_data pytune raw_data 
read_autotuner_to_data_frame read_evaluator_data_from_autotuner read_files read_gate_voltages read_iter 
ready_to_tune redirect_output reevaluate_data_with_matlab refreh_tune_run_number refresh reload_autotuner 
reload_voltages require_measurement rescale_values reserved restart restart_thread save_current_status 
save_pickle_charge_diagram_histogram_position_gradient select set_gate_voltages setup_default_gui shape 
shutdown simplex simulate_measurement simulator_dict size solver spawn_evaluator_window spawn_gradient_window 
spawn_parameter_window spawn_plot_window spawn_reload_window ss1d_simulation ss2d_simulation start state 
static_vars step sugg_diff_position suggest_next_position target time_string to_hdf5 to_matlab to_series 
transform_index transition_simulation tunable_gates tune tune_run_number tuned_parameters tuned_voltages 
tuning_hierarchy update update_after_step voltages_to_set workspace wrapper write 
""".split())
