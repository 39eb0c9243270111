PROP='C05'
NEEDS='a DETAIL density request on which the Newton iteration cycles without leaving the permitted range of volumes'
BREAKS='the limit of 20 iterations is gone: a cycling search never returns'
EDITS=[('src/detail.rs','        for _it in 0..20 {\n','        // ends by convergence or by leaving the range of volumes\n        while self.t != 0.0 {\n')]
DEMO='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let gases = [gas(), Composition { methane: 1.0, ..Default::default() }, Composition { carbon_dioxide: 1.0, ..Default::default() },
                     Composition { propane: 1.0, ..Default::default() }, Composition { methane: 0.5, propane: 0.5, ..Default::default() }];
        for g in gases.iter() {
            let mut t = 100.0;
            while t < 500.0 {
                let mut lp = 2.0;
                while lp < 12.0 {
                    let mut a = Detail::new(); a.set_composition(g).unwrap(); a.t = t; a.p = (lp as f64).exp();
                    let _ = a.density();
                    lp += 0.13;
                }
                t += 7.0;
            }
        }
        tx.send(()).unwrap();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() { println!("does not return"); std::process::exit(1); }
}
'''
