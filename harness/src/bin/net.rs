use vharness::{net_gen, net_ops, run};
fn main() {
    let a = run::args();
    let fixed = net_gen::fixed(&a.prop, &a.lits);
    let (p, l) = (a.prop.clone(), a.lits.clone());
    std::process::exit(run::search(&a, run::Want::All, fixed, &move |r, _| net_gen::gen(&p, r, &l), &|c| net_ops::exec(c), false));
}
