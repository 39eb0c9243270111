//! Thin, mechanical entry points to the public API of aga8: one wrapper per
//! public function, plus the layout of the public types.  Compiled against the
//! crate built from /repo on every run; contains no logic of its own.
#![allow(clippy::all)]
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
use std::mem::{offset_of, size_of};

fn comp_code(r: Result<(), CompositionError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(CompositionError::Empty) => 1,
        Err(CompositionError::BadSum) => 2,
        Err(CompositionError::Ok) => 3,
    }
}
fn dens_code(r: Result<(), DensityError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(DensityError::IterationFail) => 1,
        Err(DensityError::PressureTooLow) => 2,
        Err(DensityError::Ok) => 3,
    }
}


#[no_mangle] pub unsafe extern "C" fn vp_detail_new(out: *mut Detail) { out.write(Detail::new()) }
#[no_mangle] pub unsafe extern "C" fn vp_detail_default(out: *mut Detail) { out.write(Detail::default()) }
#[no_mangle] pub unsafe extern "C" fn vp_detail_set_composition(o: *mut Detail, c: *const Composition) -> i32 { comp_code((*o).set_composition(&*c)) }
#[no_mangle] pub unsafe extern "C" fn vp_detail_pressure(o: *mut Detail) -> f64 { (*o).pressure() }
#[no_mangle] pub unsafe extern "C" fn vp_detail_density(o: *mut Detail) -> i32 { dens_code((*o).density()) }
#[no_mangle] pub unsafe extern "C" fn vp_detail_properties(o: *mut Detail) { (*o).properties() }
#[no_mangle] pub unsafe extern "C" fn vp_detail_molar_mass(o: *mut Detail) -> f64 { (*o).molar_mass() }

#[no_mangle] pub unsafe extern "C" fn vp_gerg_new(out: *mut Gerg2008) { out.write(Gerg2008::new()) }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_default(out: *mut Gerg2008) { out.write(Gerg2008::default()) }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_set_composition(o: *mut Gerg2008, c: *const Composition) -> i32 { comp_code((*o).set_composition(&*c)) }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_pressure(o: *mut Gerg2008) -> f64 { (*o).pressure() }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_density(o: *mut Gerg2008, iflag: i32) -> i32 { dens_code((*o).density(iflag)) }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_properties(o: *mut Gerg2008) -> f64 { (*o).properties() }
#[no_mangle] pub unsafe extern "C" fn vp_gerg_molar_mass(o: *mut Gerg2008) -> f64 { (*o).molar_mass(); (*o).mm }

#[no_mangle] pub unsafe extern "C" fn vp_comp_sum(c: *const Composition) -> f64 { (*c).sum() }
#[no_mangle] pub unsafe extern "C" fn vp_comp_check(c: *const Composition) -> i32 { comp_code((*c).check()) }
#[no_mangle] pub unsafe extern "C" fn vp_comp_normalize(c: *mut Composition) -> i32 { comp_code((*c).normalize()) }
#[no_mangle] pub unsafe extern "C" fn vp_comp_default(c: *mut Composition) { c.write(Composition::default()) }

static LAYOUT: [usize; 86] = [
    size_of::<Detail>(), // detail.size
    offset_of!(Detail, t), // detail.t
    offset_of!(Detail, p), // detail.p
    offset_of!(Detail, d), // detail.d
    offset_of!(Detail, z), // detail.z
    offset_of!(Detail, mm), // detail.mm
    offset_of!(Detail, dp_dd), // detail.dp_dd
    offset_of!(Detail, d2p_dd2), // detail.d2p_dd2
    offset_of!(Detail, d2p_dtd), // detail.d2p_dtd
    offset_of!(Detail, dp_dt), // detail.dp_dt
    offset_of!(Detail, u), // detail.u
    offset_of!(Detail, h), // detail.h
    offset_of!(Detail, s), // detail.s
    offset_of!(Detail, cv), // detail.cv
    offset_of!(Detail, cp), // detail.cp
    offset_of!(Detail, w), // detail.w
    offset_of!(Detail, g), // detail.g
    offset_of!(Detail, jt), // detail.jt
    offset_of!(Detail, kappa), // detail.kappa
    offset_of!(Detail, x), // detail.x
    size_of::<Gerg2008>(), // gerg.size
    offset_of!(Gerg2008, t), // gerg.t
    offset_of!(Gerg2008, p), // gerg.p
    offset_of!(Gerg2008, d), // gerg.d
    offset_of!(Gerg2008, z), // gerg.z
    offset_of!(Gerg2008, mm), // gerg.mm
    offset_of!(Gerg2008, dp_dd), // gerg.dp_dd
    offset_of!(Gerg2008, d2p_dd2), // gerg.d2p_dd2
    offset_of!(Gerg2008, d2p_dtd), // gerg.d2p_dtd
    offset_of!(Gerg2008, dp_dt), // gerg.dp_dt
    offset_of!(Gerg2008, u), // gerg.u
    offset_of!(Gerg2008, h), // gerg.h
    offset_of!(Gerg2008, s), // gerg.s
    offset_of!(Gerg2008, cv), // gerg.cv
    offset_of!(Gerg2008, cp), // gerg.cp
    offset_of!(Gerg2008, w), // gerg.w
    offset_of!(Gerg2008, g), // gerg.g
    offset_of!(Gerg2008, jt), // gerg.jt
    offset_of!(Gerg2008, kappa), // gerg.kappa
    offset_of!(Gerg2008, x), // gerg.x
    size_of::<Composition>(), // comp.size
    offset_of!(Composition, methane), // comp.methane
    offset_of!(Composition, nitrogen), // comp.nitrogen
    offset_of!(Composition, carbon_dioxide), // comp.carbon_dioxide
    offset_of!(Composition, ethane), // comp.ethane
    offset_of!(Composition, propane), // comp.propane
    offset_of!(Composition, isobutane), // comp.isobutane
    offset_of!(Composition, n_butane), // comp.n_butane
    offset_of!(Composition, isopentane), // comp.isopentane
    offset_of!(Composition, n_pentane), // comp.n_pentane
    offset_of!(Composition, hexane), // comp.hexane
    offset_of!(Composition, heptane), // comp.heptane
    offset_of!(Composition, octane), // comp.octane
    offset_of!(Composition, nonane), // comp.nonane
    offset_of!(Composition, decane), // comp.decane
    offset_of!(Composition, hydrogen), // comp.hydrogen
    offset_of!(Composition, oxygen), // comp.oxygen
    offset_of!(Composition, carbon_monoxide), // comp.carbon_monoxide
    offset_of!(Composition, water), // comp.water
    offset_of!(Composition, hydrogen_sulfide), // comp.hydrogen_sulfide
    offset_of!(Composition, helium), // comp.helium
    offset_of!(Composition, argon), // comp.argon
    size_of::<aga8::ffi::Properties>(), // props.size
    offset_of!(aga8::ffi::Properties, d), // props.d
    offset_of!(aga8::ffi::Properties, mm), // props.mm
    offset_of!(aga8::ffi::Properties, z), // props.z
    offset_of!(aga8::ffi::Properties, dp_dd), // props.dp_dd
    offset_of!(aga8::ffi::Properties, d2p_dd2), // props.d2p_dd2
    offset_of!(aga8::ffi::Properties, dp_dt), // props.dp_dt
    offset_of!(aga8::ffi::Properties, u), // props.u
    offset_of!(aga8::ffi::Properties, h), // props.h
    offset_of!(aga8::ffi::Properties, s), // props.s
    offset_of!(aga8::ffi::Properties, cv), // props.cv
    offset_of!(aga8::ffi::Properties, cp), // props.cp
    offset_of!(aga8::ffi::Properties, w), // props.w
    offset_of!(aga8::ffi::Properties, g), // props.g
    offset_of!(aga8::ffi::Properties, jt), // props.jt
    offset_of!(aga8::ffi::Properties, kappa), // props.kappa
    CompositionError::Ok as usize, // CompositionError.Ok
    CompositionError::Empty as usize, // CompositionError.Empty
    CompositionError::BadSum as usize, // CompositionError.BadSum
    size_of::<CompositionError>(), // CompositionError.size
    DensityError::Ok as usize, // DensityError.Ok
    DensityError::IterationFail as usize, // DensityError.IterationFail
    DensityError::PressureTooLow as usize, // DensityError.PressureTooLow
    size_of::<DensityError>(), // DensityError.size
];
#[no_mangle] pub extern "C" fn vp_layout(i: usize) -> usize { LAYOUT[i] }
