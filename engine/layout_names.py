NAMES = ['detail.size', 'detail.t', 'detail.p', 'detail.d', 'detail.z', 'detail.mm', 'detail.dp_dd', 'detail.d2p_dd2', 'detail.d2p_dtd', 'detail.dp_dt', 'detail.u', 'detail.h', 'detail.s', 'detail.cv', 'detail.cp', 'detail.w', 'detail.g', 'detail.jt', 'detail.kappa', 'detail.x', 'gerg.size', 'gerg.t', 'gerg.p', 'gerg.d', 'gerg.z', 'gerg.mm', 'gerg.dp_dd', 'gerg.d2p_dd2', 'gerg.d2p_dtd', 'gerg.dp_dt', 'gerg.u', 'gerg.h', 'gerg.s', 'gerg.cv', 'gerg.cp', 'gerg.w', 'gerg.g', 'gerg.jt', 'gerg.kappa', 'gerg.x', 'comp.size', 'comp.methane', 'comp.nitrogen', 'comp.carbon_dioxide', 'comp.ethane', 'comp.propane', 'comp.isobutane', 'comp.n_butane', 'comp.isopentane', 'comp.n_pentane', 'comp.hexane', 'comp.heptane', 'comp.octane', 'comp.nonane', 'comp.decane', 'comp.hydrogen', 'comp.oxygen', 'comp.carbon_monoxide', 'comp.water', 'comp.hydrogen_sulfide', 'comp.helium', 'comp.argon', 'props.size', 'props.d', 'props.mm', 'props.z', 'props.dp_dd', 'props.d2p_dd2', 'props.dp_dt', 'props.u', 'props.h', 'props.s', 'props.cv', 'props.cp', 'props.w', 'props.g', 'props.jt', 'props.kappa', 'CompositionError.Ok', 'CompositionError.Empty', 'CompositionError.BadSum', 'CompositionError.size', 'DensityError.Ok', 'DensityError.IterationFail', 'DensityError.PressureTooLow', 'DensityError.size']
