//! The protocol over another scalar field (P29): built with the feature `f63`,
//! where `zokmon::F` is a 63-bit field with other generator and two-adicity.
use ark_ff::{FftField, One, PrimeField, Zero};
use ark_serialize::CanonicalDeserialize;
use std::collections::BTreeSet;
use zero_over_k::verif;
use zokmon::adv::*;
use zokmon::circuit::*;
use zokmon::fs::PlainFs;
use zokmon::proofs::{all_mutations, alter, copy, Pf};
use zokmon::report::{guard, CaseResult, Cx, Spec};
use zokmon::run::*;
use zokmon::taupc::TauPC;
use zokmon::util::R;
use zokmon::F;

/// the parameters of the field are what they claim to be
fn field_is_sound() -> CaseResult {
    let g = F::multiplicative_generator();
    let root = F::get_root_of_unity(1 << 16).ok_or("no root of unity")?;
    let half = <F as PrimeField>::Params::default_half();
    if pow_u64(g, half) != -F::one() || pow_u64(root, 1 << 15) != -F::one() {
        return Err("generator bug: field parameters".into());
    }
    Ok(())
}
fn pow_u64(x: F, e: u64) -> F {
    ark_ff::Field::pow(&x, [e])
}
trait Half {
    fn default_half() -> u64;
}
impl<T: ark_ff::FpParameters<BigInt = ark_ff::BigInteger64>> Half for T {
    fn default_half() -> u64 {
        T::MODULUS_MINUS_ONE_DIV_TWO.0[0]
    }
}

/// Installs a prover that does not stop at a broken copy or lookup.
fn hook(r: &mut R, c: &Circuit, a: &Assign, cols: usize, way: usize) {
    let mut rr = R::new(r.u64());
    if way == 1 {
        let name = *r.pick(COPY_ATTACKS);
        let own = r.chance(30);
        let (c, a) = (c.clone(), a.clone());
        verif::set_permutation_hook::<F>(Box::new(move |b, g, z| {
            own || copy_attack(&mut rr, name, &copy_chains(&c, &a, cols, b, g), z)
        }));
        return;
    }
    let failing: BTreeSet<usize> = c.check(a).lookups.iter().map(|x| x.0).collect();
    let (f2, n, u) = (failing.clone(), c.n, c.u);
    let (pn, zn) = (*r.pick(PERMUTE_ATTACKS), *r.pick(Z_ATTACKS));
    let mut count = 0;
    verif::set_permute_hook::<F>(Box::new(move |x, t| {
        let i = count;
        count += 1;
        if !f2.contains(&i) {
            return None;
        }
        let (ap, sp) = permute_attack(&mut rr, pn, x, t);
        if pn == "value first, preceded by itself" {
            force_last_blind(&mut rr, n, u, ap[0]);
        }
        Some((ap, sp))
    }));
    let mut rr = R::new(r.u64());
    verif::set_lookup_z_hook::<F>(Box::new(move |b, g, i, cols| {
        if !failing.contains(&i) {
            return None;
        }
        let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
        z_attack(&mut rr, zn, &ch, n)
    }));
}

fn p29(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx == 0 {
        field_is_sound()?;
    }
    let mut cfg = Cfg { gates: (0, 4), lookups: (0, 2), perm: 60, max_perm: 7, zh: 25, max_deg: 7, ..Cfg::default() };
    match cx.idx % 8 {
        0 => cfg.lookups = (1, 2),
        1 => {
            cfg.perm = 100;
            cfg.max_perm = 10;
            cfg.max_deg = 3
        }
        2 => {
            cfg.gates = (1, 2);
            cfg.lookups = (0, 0);
            cfg.max_deg = 18
        }
        3 if cx.idx % 64 == 3 => {
            cfg.ns = vec![128, 256];
            cfg.max_deg = 3
        }
        _ => {}
    }
    let (c, a) = gen(r, &cfg);
    if !c.check(&a).none() {
        return Err(format!("generator bug: {:?} {}", c.check(&a), c.show()));
    }
    cx.note(c.show());
    cx.sample(c.show());
    let (ck, vk) = keys::<TauPC>(c.n, 3);
    let names = zokmon::run::pick_names(r.u64());
    let prep = Prep::<TauPC>::new(&c, &ck, &vk, names);
    let s = prep.setup(&a).map_err(|e| format!("indexing a satisfiable circuit failed: {}", e))?;
    let mut p: Pf<TauPC> = s.prove::<PlainFs>(&a, r.u64()).map_err(|e| format!("proving a satisfied circuit failed: {}", e))?;
    cx.eval();
    match s.verify::<PlainFs>(copy::<TauPC>(&p), &a.i) {
        Verdict::Accept => {}
        v => return Err(format!("honest proof of a satisfied circuit not accepted: {:?}", v)),
    }
    cx.obs("honest proof accepted");
    if c.np() > 0 {
        cx.obs("honest proof accepted: copy constraints");
    }
    if !c.lookups.is_empty() {
        cx.obs("honest proof accepted: lookups");
    }
    if c.gate_degree() > 5 {
        cx.obs("honest proof accepted: gate degree above five");
    }
    cx.sig(c.sig());
    // written and read
    let b = bytes(&p);
    let q = guard(|| Pf::<TauPC>::deserialize(&b[..]).map_err(|e| format!("{:?}", e)))
        .and_then(|x| x)
        .map_err(|e| format!("an encoded proof cannot be read: {}", e))?;
    cx.eval();
    if bytes(&q) != b || !s.verify::<PlainFs>(q, &a.i).accepted() {
        return Err("a proof read back differs or is refused".into());
    }
    cx.obs("proof read back");
    // false statements
    for way in 0..3 {
        let broken = match way {
            0 if !c.gates.is_empty() => break_gates(r, &c, &a),
            1 if c.np() > 0 => break_copies(r, &c, &a),
            2 if !c.lookups.is_empty() => break_lookups(r, &c, &a),
            _ => None,
        };
        let Some((c2, a2, kind)) = broken else { continue };
        let prep = Prep::<TauPC>::new(&c2, &ck, &vk, names);
        let Ok(s) = prep.setup(&a2) else { continue };
        let proof = s.prove::<PlainFs>(&a2, r.u64());
        let p = match proof {
            Ok(p) => p,
            Err(_) => {
                cx.obs("no honest proof of a false statement");
                if way == 0 {
                    continue;
                }
                // the honest prover notices; this one goes on
                hook(r, &c2, &a2, s.scaling() - 1, way);
                let p = s.prove::<PlainFs>(&a2, r.u64());
                verif::clear_hooks();
                zokmon::fs::clear_zk();
                match p {
                    Ok(p) => p,
                    Err(_) => continue,
                }
            }
        };
        cx.eval();
        if s.verify::<PlainFs>(p, &a2.i).accepted() {
            return Err(format!("proof of a false statement accepted ({}) {}", kind, c2.show()));
        }
        cx.obs(["broken gate refused", "broken copy refused", "broken lookup refused"][way]);
    }
    // altered proofs
    let mut other = copy::<TauPC>(&p);
    let muts = all_mutations::<TauPC>(&mut p);
    for _ in 0..12 {
        let m = r.pick(&muts).clone();
        let mut q = copy::<TauPC>(&p);
        let Some(what) = alter::<TauPC>(r, &mut q, &mut other, &m) else { continue };
        if bytes(&q) == b {
            continue;
        }
        cx.eval();
        if s.verify::<PlainFs>(q, &a.i).accepted() {
            return Err(format!("altered proof accepted: {}", what));
        }
        cx.obs("altered proof refused");
    }
    // changed public inputs
    if c.ni > 0 {
        let mut i = a.i.clone();
        let (k, row) = (r.below(c.ni), r.below(c.n));
        i[k][row] += r.f_nz();
        cx.eval();
        if s.verify::<PlainFs>(copy::<TauPC>(&p), &i).accepted() {
            return Err("proof accepted for other public inputs".into());
        }
        cx.obs("other public inputs refused");
    }
    let _ = F::zero();
    Ok(())
}

fn main() {
    zokmon::report::main(&[Spec {
        id: "P29",
        level: "exploration",
        rule: "generated circuits over a 63-bit field with another generator and two-adicity: satisfied ones proved, verified and read back, broken ones and altered proofs refused; non-trivial when the circuit signature is new",
        quick: 9000,
        thorough: 180000,
        require: &["honest proof accepted: copy constraints", "honest proof accepted: lookups", "honest proof accepted: gate degree above five", "proof read back", "broken gate refused", "broken copy refused", "broken lookup refused", "altered proof refused", "other public inputs refused"],
        assumptions: &["idealised commitment scheme; the repository's own adapter is instantiated with BLS12-381 only", "false acceptance by chance has probability below 2^-50 per attempt"],
        case: p29,
    }]);
}
