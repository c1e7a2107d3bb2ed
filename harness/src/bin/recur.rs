//! Running-product columns and the constraint polynomials computed from them
//! (P22).
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use std::collections::BTreeSet;
use zero_over_k::data_structures::PermutationInfo;
use zero_over_k::lookup::subset_equality::SubsetEqualityArgument;
use zero_over_k::lookup::LookupArgument;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::permutation::PermutationArgument;
use zokmon::adv;
use zokmon::circuit::*;
use zokmon::fs::ZkRng;
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::TauPC;
use zokmon::util::*;
use zokmon::*;

type D = GeneralEvaluationDomain<F>;

/// A column with its values on the extended coset.
fn wit(label: &str, evals: &[F], ext: &D) -> WitnessProverOracle<F> {
    let mut o = WitnessProverOracle::new(label, interp(evals), evals, false);
    o.compute_extended_evals(ext);
    o
}
fn fix(label: &str, evals: &[F], ext: &D) -> FixedProverOracle<F> {
    let mut o = FixedProverOracle::new(label, interp(evals), evals);
    o.compute_extended_evals(ext);
    o
}
/// A verifier's view of a polynomial at some points.
fn vwit(label: &str, evals: &[F], at: &[F]) -> WitnessVerifierOracle<F, TauPC> {
    let mut o = WitnessVerifierOracle::new(label, false);
    let p = interp(evals);
    for x in at {
        o.register_eval_at_challenge(*x, p.evaluate(x));
    }
    o
}
fn vfix(label: &str, evals: &[F], at: &[F]) -> FixedVerifierOracle<F, TauPC> {
    let mut o = FixedVerifierOracle::new(label, None);
    let p = interp(evals);
    for x in at {
        o.register_eval_at_challenge(*x, p.evaluate(x));
    }
    o
}
fn indicator(n: usize, i: usize) -> Vec<F> {
    (0..n).map(|k| if k == i { F::one() } else { F::zero() }).collect()
}
/// coefficients of the polynomial with these values on the extended coset
fn from_coset(ext: &D, v: &[F]) -> P {
    P::from_coefficients_vec(ext.coset_ifft(v))
}
fn unit(k: usize, i: usize) -> Vec<F> {
    indicator(k, i)
}
/// rows of the domain where the polynomial does not vanish
fn nonzero_rows(p: &P, n: usize) -> Vec<bool> {
    domain(n).fft(&fold(p, n)).iter().map(|x| !x.is_zero()).collect()
}
fn fold(p: &P, n: usize) -> P {
    let mut v = vec![F::zero(); n];
    for (i, c) in p.coeffs.iter().enumerate() {
        v[i % n] += c;
    }
    P::from_coefficients_vec(v)
}
/// the same multiset of row patterns, up to the order of the constraints
fn same_patterns(mut got: Vec<Vec<bool>>, mut want: Vec<Vec<bool>>) -> bool {
    got.sort();
    want.sort();
    got == want
}
fn show(p: &[Vec<bool>]) -> String {
    p.iter()
        .map(|r| format!("{:?}", r.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>()))
        .collect::<Vec<_>>()
        .join(" ")
}

/// A new value of a column at one place.
fn poke(r: &mut R, col: &mut [F], rows: &[usize]) -> usize {
    let i = *r.pick(rows);
    col[i] = match r.below(4) {
        0 if !col[i].is_zero() => F::zero(),
        1 if col[i] != F::one() => F::one(),
        2 => -col[i] + F::one(),
        _ => col[i] + r.f_nz(),
    };
    i
}

fn copies(r: &mut R, cx: &mut Cx) -> CaseResult {
    let per = *r.pick(&[1usize, 1, 3, 3, 7]);
    let scaling = per + 1;
    let n = *r.pick(&[4usize, 8, 8, 16]);
    let (c, a) = loop {
        let cfg = Cfg { ns: vec![n], gates: (0, 0), lookups: (0, 0), perm: 100, max_perm: 9, zh: 0, ..Cfg::default() };
        let (c, a) = gen(r, &cfg);
        if c.np() > 0 {
            break (c, a);
        }
    };
    // a very wide circuit may have fewer rows than asked for
    let n = c.n;
    let d = domain(n);
    let ext: D = GeneralEvaluationDomain::new(n * scaling).unwrap();
    let ext2: D = GeneralEvaluationDomain::new(n * scaling * 2).unwrap();
    let u = c.u;
    let pc = c.pcols();
    let m = pc.len();
    let cols: Vec<Vec<F>> = pc.iter().map(|i| a.w[*i].clone()).collect();
    let sig = sigma_evals(&c);
    let qb: Vec<F> = (0..n).map(|i| if i > u { F::one() } else { F::zero() }).collect();
    let (beta, gamma) = (r.f_nz(), r.f_nz());
    cx.note(format!("{} per product {}", c.show(), per));
    cx.sample(format!("copy products: {} per product {}", c.show(), per));
    let arg = PermutationArgument::new(scaling, &PermutationInfo { u, deltas: c.deltas.clone() });
    let ws: Vec<WitnessProverOracle<F>> = cols.iter().enumerate().map(|(i, e)| wit(&format!("w{}", i), e, &ext)).collect();
    let wr: Vec<&WitnessProverOracle<F>> = ws.iter().collect();
    let ss: Vec<FixedProverOracle<F>> = sig.iter().enumerate().map(|(i, e)| fix(&format!("s{}", i), e, &ext)).collect();
    let mut zk = ZkRng::new(r.u64());
    let z = guard(|| arg.construct_agg_polys(&wr, &ss, beta, gamma, &d, &ext, &mut zk))
        .map_err(|p| format!("running products of a satisfying assignment: crash {}", p))?;
    let nz = m / per + (m % per != 0) as usize;
    cx.eval();
    if z.len() != nz || arg.number_of_z_polys(m) != nz {
        return Err(format!("{} products for {} columns at {} per product", z.len(), m, per));
    }
    // the recurrence, row by row, against an independent walk
    let chains = adv::copy_chains(&c, &a, per, beta, gamma);
    let mut start = F::one();
    for (k, ch) in chains.iter().enumerate() {
        let want = ch.walk(start, &[]);
        let got = z[k].evals();
        if got.len() != n {
            return Err(format!("product {} has {} rows", k, got.len()));
        }
        for i in 0..=u {
            if got[i] != want[i] {
                return Err(format!("product {} of {} is wrong at row {} of {} usable", k, nz, i, u));
            }
        }
        start = want[u];
        if *z[k].polynomial() != interp(got) {
            return Err(format!("product {}: polynomial and rows differ", k));
        }
        if *z[k].get_extended_coset_evals().map_err(|e| format!("{:?}", e))? != ext.coset_fft(z[k].polynomial()) {
            return Err(format!("product {}: coset values and polynomial differ", k));
        }
    }
    if !start.is_one() {
        return Err("the last product does not end at one".into());
    }
    cx.obs("copy products checked row by row");
    if nz > 1 {
        cx.obs("several products");
    }
    let z_evals: Vec<Vec<F>> = z.iter().map(|x| x.evals().clone()).collect();
    let shape = format!("{} per{} u{} n{} m{}", nz, per, u, n, m);

    // violated copies: the honest prover must not get to an end value of one
    {
        let mut cols2 = cols.clone();
        let j = r.below(m);
        let linked: Vec<usize> = (0..u).filter(|i| c.next[j][*i] != (j, *i)).collect();
        if !linked.is_empty() {
            let i = *r.pick(&linked);
            cols2[j][i] += r.f_nz();
            let ws2: Vec<WitnessProverOracle<F>> = cols2.iter().enumerate().map(|(i, e)| wit(&format!("w{}", i), e, &ext)).collect();
            let wr2: Vec<&WitnessProverOracle<F>> = ws2.iter().collect();
            let res = guard(|| arg.construct_agg_polys(&wr2, &ss, beta, gamma, &d, &ext, &mut zk));
            cx.eval();
            if let Ok(z) = res {
                if z.last().unwrap().evals()[u].is_one() {
                    return Err(format!("products end at one although column {} row {} breaks its cycle", j, i));
                }
            }
            cx.obs("violated copies do not end at one");
            cx.sig(format!("violated {}", shape));
        }
    }

    // constraint polynomials on honest and altered columns
    let alphas = arg.number_of_alphas(nz);
    for round in 0..5 {
        let mut ze = z_evals.clone();
        let mut we = cols.clone();
        let (tag, place) = match round {
            0 => ("honest", 0),
            1 => {
                let rows: Vec<usize> = (0..=u).collect();
                let k = r.below(nz);
                ("product altered", poke(r, &mut ze[k], &rows))
            }
            4 => {
                ze.iter_mut().for_each(|z| *z = r.fs(n));
                ("products replaced", 0)
            }
            2 => {
                let rows: Vec<usize> = (u + 1..n).collect();
                if rows.is_empty() {
                    continue;
                }
                let k = r.below(nz);
                ("blinding row altered", poke(r, &mut ze[k], &rows))
            }
            _ => {
                let rows: Vec<usize> = (0..n).collect();
                let k = r.below(m);
                ("column altered", poke(r, &mut we[k], &rows))
            }
        };
        // wide enough that the polynomials are determined
        let ws: Vec<WitnessProverOracle<F>> = we.iter().enumerate().map(|(i, e)| wit(&format!("w{}", i), e, &ext2)).collect();
        let wr: Vec<&WitnessProverOracle<F>> = ws.iter().collect();
        let ss: Vec<FixedProverOracle<F>> = sig.iter().enumerate().map(|(i, e)| fix(&format!("s{}", i), e, &ext2)).collect();
        let zs: Vec<WitnessProverOracle<F>> = ze.iter().enumerate().map(|(i, e)| wit(&format!("z{}", i), e, &ext2)).collect();
        let q = fix("q", &qb, &ext2);
        let l0 = ext2.coset_fft(&interp(&indicator(n, 0)));
        let lu = ext2.coset_fft(&interp(&indicator(n, u)));
        let on_coset = |al: &[F]| -> Result<P, String> {
            let mut v = vec![];
            for i in 0..ext2.size() {
                let x = guard(|| {
                    arg.instantiate_argument_at_omega_i(&l0, &lu, &q, &wr, &ss, &zs, i, ext2.element(i), beta, gamma, &d, al)
                })
                .map_err(|p| format!("crash: {}", p))?
                .map_err(|e| format!("error: {:?}", e))?;
                v.push(x);
            }
            Ok(from_coset(&ext2, &v))
        };
        let mut got = vec![];
        for k in 0..alphas {
            got.push(nonzero_rows(&on_coset(&unit(alphas, k))?, n));
        }
        // reference: which constraint fails on which row
        let b = Assign {
            w: {
                let mut w = a.w.clone();
                for (k, i) in pc.iter().enumerate() {
                    w[*i] = we[k].clone();
                }
                w
            },
            i: a.i.clone(),
        };
        let mut want = vec![];
        want.push((0..n).map(|i| i == 0 && !ze[0][0].is_one()).collect::<Vec<bool>>());
        for k in 0..nz {
            let lo = k * per;
            let hi = (lo + per).min(m);
            want.push(
                (0..n)
                    .map(|i| {
                        if i >= u {
                            return false;
                        }
                        let (mut num, mut den) = (F::one(), F::one());
                        for j in lo..hi {
                            let v = b.w[pc[j]][i];
                            num *= v + beta * c.deltas[j] * d.element(i) + gamma;
                            den *= v + beta * sig[j][i] + gamma;
                        }
                        ze[k][i + 1] * den != ze[k][i] * num
                    })
                    .collect(),
            );
        }
        for k in 0..nz - 1 {
            want.push((0..n).map(|i| i == 0 && ze[k + 1][0] != ze[k][u]).collect());
        }
        let last = ze[nz - 1][u];
        want.push((0..n).map(|i| i == u && last * last != last).collect());
        cx.eval();
        if !same_patterns(got.clone(), want.clone()) {
            return Err(format!(
                "copy constraints ({} at row {}) fail on rows {} instead of {}",
                tag,
                place,
                show(&got),
                show(&want)
            ));
        }
        if tag == "honest" && got.iter().flatten().any(|x| *x) {
            return Err("honest products violate a constraint".into());
        }
        if want.iter().flatten().any(|x| *x) {
            cx.obs(format!("located: {}", tag));
        } else {
            cx.obs(format!("clean: {}", tag));
        }
        cx.sig(format!("{} {} {}", tag, shape, want.iter().flatten().filter(|x| **x).count()));
        // one polynomial in both forms
        let al = r.fs(alphas);
        let p = on_coset(&al)?;
        let xi = r.f();
        let pts = [xi, xi * d.element(1), xi * d.element(u)];
        let vq = vfix("q", &qb, &pts);
        let vz: Vec<_> = ze.iter().map(|e| vwit("z", e, &pts)).collect();
        let vs: Vec<_> = sig.iter().map(|e| vfix("s", e, &pts)).collect();
        let vw: Vec<_> = we.iter().map(|e| vwit("w", e, &pts)).collect();
        let vwr: Vec<_> = vw.iter().collect();
        let l0x = interp(&indicator(n, 0)).evaluate(&xi);
        let lux = interp(&indicator(n, u)).evaluate(&xi);
        let open = guard(|| arg.open_argument::<TauPC>(l0x, lux, &vq, &vz, &vs, &vwr, beta, gamma, &d, xi, &al))
            .map_err(|p| format!("crash at a challenge: {}", p))?
            .map_err(|e| format!("error at a challenge: {:?}", e))?;
        cx.eval();
        if open != p.evaluate(&xi) {
            return Err(format!("copy constraints ({}): coset and challenge forms differ", tag));
        }
        cx.obs("copy forms agree");
    }
    Ok(())
}

fn lookups(r: &mut R, cx: &mut Cx) -> CaseResult {
    let n = *r.pick(&[4usize, 8, 8, 16]);
    let u = r.range(1, n - 2);
    let d = domain(n);
    let ext: D = GeneralEvaluationDomain::new(n * 8).unwrap();
    let (beta, gamma) = (r.f_nz(), r.f_nz());
    let small = r.chance(60);
    let mut col = |r: &mut R| -> Vec<F> { (0..n).map(|_| if small { F::from(r.below(3) as u64) } else { r.f() }).collect() };
    let s = col(r);
    let mut a = col(r);
    for i in 0..u {
        a[i] = s[r.below(u)];
    }
    let (ap, sp) = guard(|| zero_over_k::lookup::permute::permute_for_lookup(&a[..u], &s[..u])).map_err(|p| format!("permuting: {}", p))?;
    let pad = |r: &mut R, mut v: Vec<F>| {
        v.extend(r.fs(n - u));
        v
    };
    let (ap, sp) = (pad(r, ap), pad(r, sp));
    let cols = [a, s, ap, sp];
    let oracles = |cols: &[Vec<F>; 4]| {
        (wit("a", &cols[0], &ext), wit("s", &cols[1], &ext), wit("ap", &cols[2], &ext), wit("sp", &cols[3], &ext))
    };
    let qb: Vec<F> = (0..n).map(|i| if i > u { F::one() } else { F::zero() }).collect();
    cx.note(format!("lookup n={} u={} small={}", n, u, small));
    let honest = oracles(&cols);
    let mut zk = ZkRng::new(r.u64());
    let idx = r.below(3);
    let z = guard(|| SubsetEqualityArgument::construct_agg_poly(&honest, beta, gamma, idx, u, &d, &ext, &mut zk))
        .map_err(|p| format!("lookup product: crash {}", p))?;
    let ch = adv::lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], beta, gamma);
    let want = ch.walk(F::one(), &[]);
    cx.eval();
    for i in 0..=u {
        if z.evals()[i] != want[i] {
            return Err(format!("lookup product is wrong at row {} of {}", i, u));
        }
    }
    if !z.evals()[u].is_one() || z.evals().len() != n {
        return Err("lookup product does not end at one".into());
    }
    if *z.polynomial() != interp(z.evals()) || *z.get_extended_coset_evals().map_err(|e| format!("{:?}", e))? != ext.coset_fft(z.polynomial()) {
        return Err("lookup product: polynomial, rows and coset values differ".into());
    }
    let rots: BTreeSet<Rotation> = [Rotation::curr(), Rotation::next()].into_iter().collect();
    if !rots.is_subset(z.get_queried_rotations()) {
        return Err("lookup product is not opened at the current and next row".into());
    }
    cx.obs("lookup product checked row by row");
    // a permuted table that is no rearrangement does not end at one
    {
        let mut bad = cols.clone();
        let rows: Vec<usize> = (0..u).collect();
        let k = r.range(2, 3);
        poke(r, &mut bad[k], &rows);
        let o = oracles(&bad);
        let res = guard(|| SubsetEqualityArgument::construct_agg_poly(&o, beta, gamma, idx, u, &d, &ext, &mut zk));
        cx.eval();
        if let Ok(z) = res {
            if z.evals()[u].is_one() {
                return Err("lookup product ends at one although the columns are no rearrangement".into());
            }
        }
        cx.obs("broken rearrangement does not end at one");
    }
    let prev = Rotation::new(1, Sign::Minus);
    let _ = prev;
    for round in 0..5 {
        let mut ze = z.evals().clone();
        let mut ce = cols.clone();
        let (tag, place) = match round {
            0 => ("honest", 0),
            1 => {
                let rows: Vec<usize> = (0..=u).collect();
                ("lookup product altered", poke(r, &mut ze, &rows))
            }
            4 => {
                ze = r.fs(n);
                (2..4).for_each(|k| ce[k] = r.fs(n));
                ("lookup columns replaced", 0)
            }
            2 => {
                // rows after u
                let rows: Vec<usize> = (u + 1..n).collect();
                let which = r.below(5);
                ("lookup blinding row altered", if which == 4 { poke(r, &mut ze, &rows) } else { poke(r, &mut ce[which], &rows) })
            }
            _ => {
                let rows: Vec<usize> = (0..u).collect();
                let k = r.below(4);
                ("lookup column altered", poke(r, &mut ce[k], &rows))
            }
        };
        let o = oracles(&ce);
        let zo = wit("z", &ze, &ext);
        let q = fix("q", &qb, &ext);
        let l0 = ext.coset_fft(&interp(&indicator(n, 0)));
        let lu = ext.coset_fft(&interp(&indicator(n, u)));
        let on_coset = |al: &[F]| -> Result<P, String> {
            let mut v = vec![];
            for i in 0..ext.size() {
                v.push(
                    guard(|| LookupArgument::instantiate_argument_at_omega_i(&l0, &lu, &q, &o, &zo, beta, gamma, i, al))
                        .map_err(|p| format!("crash: {}", p))?
                        .map_err(|e| format!("error: {:?}", e))?,
                );
            }
            Ok(from_coset(&ext, &v))
        };
        let mut got = vec![];
        for k in 0..5 {
            got.push(nonzero_rows(&on_coset(&unit(5, k))?, n));
        }
        let (a, s, ap, sp) = (&ce[0], &ce[1], &ce[2], &ce[3]);
        let want = vec![
            (0..n).map(|i| i == 0 && !ze[0].is_one()).collect::<Vec<bool>>(),
            (0..n)
                .map(|i| {
                    i < u
                        && ze[i + 1] * (ap[i] + beta) * (sp[i] + gamma) != ze[i] * (a[i] + beta) * (s[i] + gamma)
                })
                .collect(),
            (0..n).map(|i| i == u && ze[i] * ze[i] != ze[i]).collect(),
            (0..n).map(|i| i == 0 && ap[0] != sp[0]).collect(),
            (0..n).map(|i| i < u && ap[i] != sp[i] && ap[i] != ap[(i + n - 1) % n]).collect(),
        ];
        cx.eval();
        if !same_patterns(got.clone(), want.clone()) {
            return Err(format!(
                "lookup constraints ({} at row {}) fail on rows {} instead of {}",
                tag,
                place,
                show(&got),
                show(&want)
            ));
        }
        if tag == "honest" && got.iter().flatten().any(|x| *x) {
            return Err("honest lookup columns violate a constraint".into());
        }
        cx.obs(format!("{}: {}", if want.iter().flatten().any(|x| *x) { "located" } else { "clean" }, tag));
        cx.sig(format!("{} n{} u{} {} {}", tag, n, u, small, want.iter().flatten().filter(|x| **x).count()));
        let al = r.fs(5);
        let p = on_coset(&al)?;
        let xi = r.f();
        let pts = [xi, xi * d.element(1), xi * d.element(n - 1)];
        let vo = (vwit("a", a, &pts), vwit("s", s, &pts), vwit("ap", ap, &pts), vwit("sp", sp, &pts));
        let vz = vwit("z", &ze, &pts);
        let vq = vfix("q", &qb, &pts);
        let l0x = interp(&indicator(n, 0)).evaluate(&xi);
        let lux = interp(&indicator(n, u)).evaluate(&xi);
        let open = guard(|| LookupArgument::open_argument::<TauPC>(&l0x, lux, &vq, &vo, &vz, beta, gamma, &xi, &d, &al))
            .map_err(|p| format!("crash at a challenge: {}", p))?
            .map_err(|e| format!("error at a challenge: {:?}", e))?;
        cx.eval();
        if open != p.evaluate(&xi) {
            return Err(format!("lookup constraints ({}): coset and challenge forms differ", tag));
        }
        cx.obs("lookup forms agree");
    }
    let _ = F::one().inverse();
    Ok(())
}

fn p22(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 2 == 0 {
        copies(r, cx)
    } else {
        lookups(r, cx)
    }
}

fn main() {
    zokmon::report::main(&[Spec {
        id: "P22",
        level: "exploration",
        rule: "running products of random copy and lookup columns compared row by row with an independent walk; every constraint polynomial, separately, compared row by row with its definition on honest and altered columns, and in coset and challenge form; non-trivial when alteration, sizes and number of violated rows are new",
        quick: 12800,
        thorough: 256000,
        require: &["copy products checked row by row", "several products", "violated copies do not end at one", "located: product altered", "clean: blinding row altered", "located: column altered", "copy forms agree", "lookup product checked row by row", "located: lookup product altered", "located: lookup column altered", "clean: lookup blinding row altered", "lookup forms agree"],
        assumptions: &["the blinding selector is one exactly on the rows after the last usable one"],
        case: p22,
    }]);
}
