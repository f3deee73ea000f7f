mod ops;
mod table;
use ops::Acc;
use vharness::{rng::Rng, run, run::Case};
fn main() {
    let a = run::args();
    let rows = table::rows();
    let consts = table::consts();
    let cat = a.prop == "C15";
    let all = a.prop == "C27";
    let mut fixed = vec![];
    if a.prop == "C14" || all { for i in 0..consts.len() { fixed.push(Case::new("const", vec![], vec![i as i64])); } }
    if a.prop != "C14" {
        let mut r = Rng::new(5);
        for (i, row) in rows.iter().enumerate() {
            let is_cat = matches!(row.acc, Acc::Cat(..));
            if cat && !is_cat { continue; }
            for n in 0..=20usize { for t in [-1i64, 0, 1, 0x1f, 0x20] {
                if t >= 0 && !matches!(row.acc, Acc::TInt(..) | Acc::TStr(..) | Acc::TPw(..) | Acc::Vsa(..)) { continue; }
                let v: Vec<u8> = (0..n).map(|k| (k as u8) * 11 + 1).collect();
                let mut other = vec![row.num.wrapping_add(1), 1];
                other.push(9);
                fixed.push(Case::new("acc", vec![v, b"secret".to_vec(), (0..16).collect(), other], vec![i as i64, t, 1]));
            } }
            if is_cat { for n in 0..1100usize { fixed.push(Case::new("acc", vec![(0..n).map(|k| (k % 251) as u8).collect(), b"secret".to_vec(), vec![1; 16], vec![1, 2]], vec![i as i64, -1, (n % 2) as i64])); } }
            for _ in 0..60 { let mut c = ops::gen(&rows, false, &mut r, &a.lits); if all || matches!(rows[c.nn(0) as usize].acc, Acc::Cat(..)) == is_cat { c.n[0] = i as i64; fixed.push(c); } }
        }
    }
    let (rw, cs, l) = (&rows, &consts, a.lits.clone());
    let never = a.prop == "C14";
    let want = if a.prop == "C16" { run::Want::PanicsOnly } else { run::Want::All };
    std::process::exit(run::search(&a, want, fixed, &move |r, _| if never { Case::new("const", vec![], vec![r.below(cs.len() as u64) as i64]) } else { ops::gen(rw, cat, r, &l) },
        &|c| if c.op == "const" {
            let (n, got, want) = &consts[c.nn(0) as usize % consts.len()];
            if got == want { Ok(()) } else { Err(format!("{n} is {got} instead of {want}")) }
        } else { ops::acc(&rows, c) }, true));
}
