use vharness::{core_gen, core_ops, fresh, run};
fn main() {
    if std::env::args().nth(1).as_deref() == Some("C26emit") { return fresh::emit(); }
    let a = run::args();
    let want = if a.prop == "C16" { run::Want::PanicsOnly } else { run::Want::All };
    let fixed = core_gen::fixed(&a.prop, &a.lits);
    let (p, l) = (a.prop.clone(), a.lits.clone());
    std::process::exit(run::search(&a, want, fixed, &move |r, _| core_gen::gen(&p, r, &l), &|c| core_ops::exec(c), true));
}
