"""Property -> (module, case generators, functions of /repo that are executed symbolically)."""
CORE = ['ControllerBuilder.new_builder', 'ControllerBuilder.define_accumulator_directly', 'ControllerBuilder.build', 'ACT_Controller.load', 'ACT_Controller.save']
STEP = CORE + ['ACT_Controller.cache_update', 'ACT_Controller.iterate_act', 'ACT_Controller.halt_threshold', 'ACT_Controller.halted_batches',
               'utils.execute_binary_operator', 'utils.setup_left_broadcast', 'utils.merge_pytrees', 'utils.broadcast_pytree_shape']
VIEW = CORE + ['ACT_Controller.make_viewer', 'ACTViewer.load', 'ACTViewer.save']
EDIT = CORE + ['TensorEditor (every setter)', 'TensorEditor.edit_controller', 'TensorEditor.edit_save', 'TensorEditor.build', 'jax.experimental.checkify (traced through)']

PROPS = {
    'C01': ('c_step', ['c01'], STEP),
    'C02': ('c_step', ['c02'], STEP + ['ACT_Controller.is_completely_halted', 'ACT_Controller.is_any_halted', 'ACTViewer.halted_batches']),
    'C03': ('c_step', ['c03'], STEP),
    'C04': ('c_step', ['c04'], STEP),
    'C05': ('c_step', ['c05'], STEP),
    'C06': ('c_step', ['c06'], STEP),
    'C07': ('c_step', ['c07'], STEP),
    'C08': ('c_step', ['c08'], STEP + ['ACT_Controller.reset_batches', 'ACTViewer.mask_data', 'ACTViewer.halted_only', 'ACTViewer.unhalted_only']),
    'C09': ('c_step', ['c09'], CORE + ['ACT_Controller.reset_batches', 'ACT_Controller.halted_batches']),
    'C10': ('c_proto', ['c10'], STEP + ['ACT_Controller.reset_batches', 'ACT_Controller.updates_ready_to_commit', 'ACT_Controller.has_cached_updates']),
    'C11': ('c_proto', ['c11'], STEP + ['Immutable.__setattr__', 'ACT_Controller.reset_batches', 'ACTViewer.*', 'TensorEditor.*', 'ControllerBuilder.*', 'ACTStates.replace']),
    'S01': ('c_proto', ['s01'], CORE + ['pytree registrations of ACTStates, ACT_Controller, ACTViewer, ControllerBuilder', 'ACT_Controller.iterate_act', 'ACTViewer.mask_data']),
    'S02': ('c_proto', ['s02'], CORE + ['ACTStates.replace', 'ACT_Controller.make_viewer', 'ACTViewer.load', 'TensorEditor.edit_save', 'TensorEditor.edit_controller', 'properties of the four classes']),
    'S03': ('t_trans', ['s03'], STEP + ['ACT_Controller.reset_batches', 'ACTViewer.mask_data', 'TensorEditor.set_probabilities', 'AbstractACTTemplate.execute_act', 'jax.vmap and jax.lax.scan (traced through)']),
    'V01': ('v_viewer', ['v01'], VIEW + ['ACTViewer.mask_data']),
    'V02': ('v_viewer', ['v02'], VIEW + ['ACTViewer.halted_only', 'ACTViewer.unhalted_only', 'ACTViewer.halted_batches']),
    'V03': ('v_viewer', ['v03'], VIEW + ['ACTViewer.transform']),
    'B01': ('b_build', ['b01'], CORE + ['ControllerBuilder.define_accumulator_by_shape', 'ControllerBuilder._delete_definition']),
    'B02': ('b_build', ['b02'], CORE + ['AbstractControllerContract.new_builder', 'ACT_Controller.iterate_act', 'ACT_Controller.halted_batches']),
    'B03': ('b_build', ['b03'], CORE),
    'B04': ('b_build', ['b04'], CORE + ['ControllerBuilder.define_accumulator_by_shape']),
    'E01': ('b_build', ['e01'], EDIT),
    'E02': ('b_build', ['e02'], EDIT),
    'E03': ('b_build', ['e03'], EDIT + ['utils.jit_and_checkify']),
    'U01': ('u_utils', ['u01'], ['utils.can_right_broadcast']),
    'U02': ('u_utils', ['u02'], ['utils.setup_left_broadcast']),
    'U03': ('u_utils', ['u03'], ['utils.broadcast_pytree_shape']),
    'U04': ('u_utils', ['u04'], ['utils.execute_binary_operator', 'utils.setup_left_broadcast', 'utils.broadcast_pytree_shape']),
    'U05': ('u_utils', ['u05'], ['utils.are_pytree_structure_equal', 'utils.merge_pytrees']),
    'U06': ('u_utils', ['u06'], ['utils.are_pytrees_equal']),
    'U07': ('u_utils', ['u07'], ['utils.jit_and_checkify']),
    'D01': ('d_deriv', ['d01'], STEP + ['ACT_Controller.reset_batches', 'ACTViewer.mask_data', 'jax.jvp and jax.vjp (traced through)']),
    'L01': ('l_layers', ['l01'], STEP + ['AbstractACTTemplate.execute_act', 'ContractValidationWrapper.make_controller', 'ContractValidationWrapper.run_iteration']),
    'L02': ('l_layers', ['l02'], STEP + ['ContractValidationWrapper.make_controller', 'ContractValidationWrapper.run_iteration', 'AbstractACTTemplate.execute_act']),
    'F01': ('l_layers', ['f01'], STEP + ['FlaxACTLayer.setup', 'FlaxACTLayer.setup_lazy_parameters', 'AbstractACTTemplate.execute_act']),
}

ASSUMPTIONS = [
    'Shapes, tree structures and dtypes are those of the configurations listed in DESIGN.md; every tensor entry in them is symbolic.',
    'Each jaxpr primitive has its IEEE-754 (round to nearest even) meaning; XLA fusing a multiply and an add, and flushing subnormals, are outside.',
    'Nonzero float magnitudes lie in [2^-40, 2^40] (float16: [2^-6, 2^6]) where the domain is fin, unit or dep; goals marked re are over the reals.',
    'jax.make_jaxpr, the structural primitives of jaxlib (run on index arrays), numpy, and the SMT solvers z3 and cvc5 are trusted.',
    'Transcendental functions are uninterpreted.',
]
