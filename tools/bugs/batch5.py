exec(open('/verif/tools/bugs/batch4.py').read().split('BUGS=[')[0])
BUGS=[
dict(id='flag-before-value', prop='C20', profile='release', subs=[(FL,"                return 3.1415926535897932384626433832795028841971693993751058209749445923078164062 as $T;","                // Summed on the first call only.\n                static READY: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n                static PI: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);\n                if !READY.swap(true, core::sync::atomic::Ordering::AcqRel)\n                {\n                    let mut pi = 0f64;\n                    for digit in [3.0, 0.1415926535897931]\n                    {\n                        pi += digit;\n                        PI.store(pi.to_bits(), core::sync::atomic::Ordering::Release);\n                    }\n                }\n                return f64::from_bits(PI.load(core::sync::atomic::Ordering::Acquire)) as $T;")],
 demo=USE+"""use std::sync::atomic::{AtomicUsize,Ordering::*};
fn main(){
 let k=4;
 if std::env::args().count()>1 {
  let step=AtomicUsize::new(0);
  let ok=std::thread::scope(|s| (0..k).map(|_| s.spawn(|| { step.fetch_add(1,SeqCst); while step.load(Acquire)<k { std::hint::spin_loop() } let x=f64::mixed_pi(); x.to_bits()==std::f64::consts::PI.to_bits() })).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).fold(true,|a,b| a&b));
  std::process::exit(if ok {0} else {1})
 }
 let exe=std::env::current_exe().unwrap();
 for _ in 0..20000 { assert!(std::process::Command::new(&exe).arg("x").status().unwrap().success()) }
}""",
 needs='two threads whose first calls overlap', breaks='one of them gets a part of the constant'),
]
