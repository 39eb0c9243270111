PROP='C10'
NEEDS='a DETAIL density request that needs ten or more iterations'
BREAKS='the convergence tolerance is relaxed to 1e-2 late in the search, so Ok is reported for densities that are off by up to several 1e-4'
EDITS=[('src/detail.rs','        for _it in 0..20 {','        for it in 0..20 {'),('src/detail.rs','if vdiff.abs() < ','if vdiff.abs() < (if it > 9 { 1.0e5 } else { 1.0 }) * ')]
DEMO='''
fn main() {
    let mut worst: f64 = 0.0; let mut n = 0;
    for c in [gas(), Composition { carbon_dioxide: 1.0, ..Default::default() }, Composition { propane: 1.0, ..Default::default() }, Composition { methane: 0.5, propane: 0.5, ..Default::default() }] {
        let mut a = Detail::new(); a.set_composition(&c).unwrap();
        for ti in 0..80 { for pi in 1..80 {
            a.t = 150.0 + 5.0 * ti as f64; a.p = 50.0 * 1.1f64.powi(pi); a.d = 0.0;
            if a.density().is_err() { continue; }
            let (d, p) = (a.d, a.p);
            let q = a.pressure(); let h = 1.0e-5 * d;
            a.d = d + h; let q1 = a.pressure(); a.d = d - h; let q0 = a.pressure();
            let s = (q1 - q0) / (2.0 * h);
            if q <= 0.0 || s <= 0.0 { continue; }
            let step = ((q.ln() - p.ln()) * q / (d * s)).abs();
            n += 1; if step > worst { worst = step; println!("{} {} {} {}", a.t, p, d, step); }
        } }
    }
    println!("{} {}", n, worst);
    assert!(worst < 1.0e-6);
}
'''
