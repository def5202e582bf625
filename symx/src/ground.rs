//! C20: facts about the shipped curve parameters.  The parameters are read from the compiled
//! library; each fact is a closed formula over the integers, and the solver decides its negation.
use fawkes_crypto::native::bls12_381::JubJubBLS12_381;
use fawkes_crypto::native::bn256::JubJubBN256;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use ff::{PrimeField, PrimeFieldRepr};
use num::bigint::BigUint;
use serde_json::json;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::Instant;

fn int<F: PrimeField>(x: &F) -> BigUint {
    repr(&x.into_repr())
}
fn repr<R: PrimeFieldRepr>(r: &R) -> BigUint {
    let mut b = vec![];
    r.write_be(&mut b).unwrap();
    BigUint::from_bytes_be(&b)
}
fn bits(n: &BigUint) -> Vec<bool> {
    n.to_str_radix(2).chars().map(|c| c == '1').collect()
}

/// a script of definitions; every definition is one modular operation on earlier ones
struct Script {
    s: String,
    n: usize,
    p: String,
}
impl Script {
    fn new(p: &BigUint) -> Script {
        Script { s: "(set-logic QF_NIA)\n".into(), n: 0, p: p.to_string() }
    }
    fn def(&mut self, e: String) -> String {
        self.n += 1;
        let v = format!("v{}", self.n);
        self.s.push_str(&format!("(declare-const {} Int)\n(assert (= {} {}))\n", v, v, e));
        v
    }
    fn k(&mut self, v: &BigUint) -> String {
        self.def(v.to_string())
    }
    fn mul(&mut self, a: &str, b: &str) -> String {
        let e = format!("(mod (* {} {}) {})", a, b, self.p);
        self.def(e)
    }
    fn add(&mut self, a: &str, b: &str) -> String {
        let e = format!("(mod (+ {} {}) {})", a, b, self.p);
        self.def(e)
    }
    fn sub(&mut self, a: &str, b: &str) -> String {
        let e = format!("(mod (- {} {}) {})", a, b, self.p);
        self.def(e)
    }
    fn pow(&mut self, a: &str, e: &BigUint) -> String {
        let mut r = self.k(&BigUint::from(1u32));
        for b in bits(e) {
            r = self.mul(&r, &r);
            if b {
                r = self.mul(&r, a);
            }
        }
        r
    }
    fn prove(mut self, goal: &str) -> String {
        self.s.push_str(&format!("(assert (not {}))\n(check-sat)\n", goal));
        self.s
    }
}

struct Fact {
    name: String,
    script: String,
    what: String,
}

fn facts<J: JubJubParams>(name: &str, j: &J) -> Vec<Fact>
where
    J::Fr: PrimeField,
    J::Fs: PrimeField,
{
    let p = repr(&<J::Fr as PrimeField>::char());
    let l = repr(&<J::Fs as PrimeField>::char());
    let n = |x: Num<J::Fr>| int(&x.into_inner());
    let (d, a, b, u) = (n(j.edwards_d()), n(j.montgomery_a()), n(j.montgomery_b()), n(j.montgomery_u()));
    let (gx, gy) = (n(j.edwards_g().x), n(j.edwards_g().y));
    let one = BigUint::from(1u32);
    let half = (&p - &one) / 2u32;
    let minus1 = &p - &one;
    let mut out = vec![];
    let mut f = |k: &str, script: String, what: String| out.push(Fact { name: format!("{}: {}", name, k), script, what });

    // Euler's criterion
    let mut s = Script::new(&p);
    let x = s.k(&d);
    let r = s.pow(&x, &half);
    f("the coefficient d is a non-square", s.prove(&format!("(= {} {})", r, minus1)), format!("d={}", d));
    let mut s = Script::new(&p);
    let x = s.k(&minus1);
    let r = s.pow(&x, &half);
    f("-1 is a square", s.prove(&format!("(= {} 1)", r)), "".into());
    let mut s = Script::new(&p);
    let x = s.k(&u);
    let r = s.pow(&x, &half);
    f("the hash-to-curve constant is a non-square", s.prove(&format!("(= {} {})", r, minus1)), format!("u={}", u));

    // the Montgomery form belongs to the Edwards form
    let mut s = Script::new(&p);
    let (dd, aa, bb, o) = (s.k(&d), s.k(&a), s.k(&b), s.k(&one));
    let dp = s.add(&o, &dd);
    let dm = s.sub(&o, &dd);
    let dm2 = s.add(&dm, &dm);
    let l1 = s.mul(&aa, &dp);
    let l2 = s.mul(&bb, &dp);
    let m4 = s.k(&(&p - BigUint::from(4u32)));
    f(
        "the Montgomery coefficients match d",
        s.prove(&format!("(and (not (= {} 0)) (= {} {}) (= {} {}))", dp, l1, dm2, l2, m4)),
        format!("d={} A={} B={}", d, a, b),
    );

    // the generator
    let mut s = Script::new(&p);
    let (dd, x, y, o) = (s.k(&d), s.k(&gx), s.k(&gy), s.k(&one));
    let x2 = s.mul(&x, &x);
    let y2 = s.mul(&y, &y);
    let lhs = s.sub(&y2, &x2);
    let xy = s.mul(&x2, &y2);
    let dxy = s.mul(&dd, &xy);
    let rhs = s.add(&o, &dxy);
    f(
        "the generator is a point of the curve other than the identity",
        s.prove(&format!("(and (= {} {}) (not (= {} 0)))", lhs, rhs, x)),
        format!("g=({}, {})", gx, gy),
    );

    // l g = identity, by the complete addition law in projective coordinates
    let mut s = Script::new(&p);
    let dd = s.k(&d);
    let g = [s.k(&gx), s.k(&gy), s.k(&one)];
    let mut q = [s.k(&BigUint::from(0u32)), s.k(&one), s.k(&one)];
    fn add(s: &mut Script, d: &str, a: &[String; 3], b: &[String; 3]) -> [String; 3] {
        let zz = s.mul(&a[2], &b[2]);
        let z2 = s.mul(&zz, &zz);
        let xx = s.mul(&a[0], &b[0]);
        let yy = s.mul(&a[1], &b[1]);
        let xy = s.mul(&xx, &yy);
        let e = s.mul(d, &xy);
        let f = s.sub(&z2, &e);
        let g = s.add(&z2, &e);
        let u = s.mul(&a[0], &b[1]);
        let v = s.mul(&a[1], &b[0]);
        let uv = s.add(&u, &v);
        let x = s.mul(&zz, &f);
        let x = s.mul(&x, &uv);
        let w = s.add(&yy, &xx);
        let y = s.mul(&zz, &g);
        let y = s.mul(&y, &w);
        let z = s.mul(&f, &g);
        [x, y, z]
    }
    for bit in bits(&l) {
        q = add(&mut s, &dd, &q.clone(), &q);
        if bit {
            q = add(&mut s, &dd, &q.clone(), &g);
        }
    }
    f(
        "the generator is annihilated by the order of the scalar field",
        s.prove(&format!("(and (= {} 0) (= {} {}) (not (= {} 0)))", q[0], q[1], q[2], q[2])),
        format!("g=({}, {}) l={}", gx, gy, l),
    );

    // the generator is eight times the point the mapping assigns to the public seed
    let inv = |x: &BigUint| x.modpow(&(&p - BigUint::from(2u32)), &p);
    let h = {
        let mut h = blake2_rfc::blake2s::Blake2s::with_params(32, &[], &[], b"__fawkes");
        h.update(b"edwards_g");
        BigUint::from_bytes_be(h.finalize().as_bytes()) % &p
    };
    let zi = {
        let t = (&h + &one) % &p;
        inv(&(&t * &t % &p * &u % &p))
    };
    let ai = inv(&a);
    let bi = inv(&b);
    // the abscissa: the first candidate if its ordinate exists, the second otherwise
    let x2 = (&p - &ai) * (&one + &zi) % &p;
    let curve = |x: &BigUint| (x * x % &p * (x + &a) + x) % &p * &bi % &p;
    let first = curve(&x2).modpow(&half, &p) != minus1;
    let mx = if first { x2.clone() } else { &x2 * inv(&zi) % &p };
    let my = {
        let v = <J::Fr as PrimeField>::from_str(&curve(&mx).to_string()).expect("in range");
        let y = ff::SqrtField::sqrt(&v).map(|y| int(&y)).unwrap_or(BigUint::from(0u32));
        if &y % 2u32 == one { &p - y } else { y }
    };
    let mut s = Script::new(&p);
    let (tt, uu, aa, bb, o, m1) = (s.k(&h), s.k(&u), s.k(&a), s.k(&b), s.k(&one), s.k(&minus1));
    let t1 = s.add(&tt, &o);
    let t2 = s.mul(&t1, &t1);
    let z = s.mul(&t2, &uu);
    let zinv = s.k(&zi);
    let chk1 = s.mul(&z, &zinv);
    let w = s.add(&o, &zinv);
    let rhs = s.mul(&m1, &w);
    let xa = s.k(&x2);
    let chk2 = s.mul(&xa, &aa);
    let g_of = |s: &mut Script, x: &str| {
        let sq = s.mul(x, x);
        let xa = s.add(x, &aa);
        let c = s.mul(&sq, &xa);
        s.add(&c, x)
    };
    let ga = g_of(&mut s, &xa);
    let gab = s.mul(&ga, &bb); // g(x) b^2, which is a square exactly when g(x) is
    let euler = s.pow(&gab, &half);
    let xm = if first { xa.clone() } else { s.mul(&xa, &z) };
    let ym = s.k(&my);
    let gm = g_of(&mut s, &xm);
    let yy = s.mul(&ym, &ym);
    let byy = s.mul(&bb, &yy);
    // to the Edwards form, in projective coordinates: x = mx/my, y = (mx-1)/(mx+1)
    let xp = s.add(&xm, &o);
    let xs = s.sub(&xm, &o);
    let mut q = [s.mul(&xm, &xp), s.mul(&xs, &ym), s.mul(&ym, &xp)];
    let dd = s.k(&d);
    for _ in 0..3 {
        q = add(&mut s, &dd, &q.clone(), &q);
    }
    let (gxs, gys) = (s.k(&gx), s.k(&gy));
    let (ex, ey) = (s.mul(&gxs, &q[2]), s.mul(&gys, &q[2]));
    let side = if first { format!("(not (= {} {}))", euler, minus1) } else { format!("(= {} {})", euler, minus1) };
    f(
        "the generator is the point the public seed is mapped to",
        s.prove(&format!(
            "(and (= {} 1) (= {} {}) {} (= {} {}) (= (mod {} 2) 0) (< {} {}) (not (= {} 0)) (= {} {}) (= {} {}))",
            chk1, chk2, rhs, side, gm, byy, ym, ym, p, q[2], ex, q[0], ey, q[1]
        )),
        format!("g=({}, {})", gx, gy),
    );

    // the curve has 8 l points: the only multiple of l in Hasse's interval
    let s = Script::new(&p);
    f(
        "the curve has eight times as many points as the scalar field",
        s.prove(&format!("(let ((t (- (* 8 {l}) (+ {p} 1)))) (and (<= (* t t) (* 4 {p})) (> (* {l} {l}) (* 16 {p}))))", l = l, p = p)),
        format!("l={}", l),
    );
    // Fermat tests of the orders
    for m in [&p, &l] {
        for base in [2u32, 3, 5] {
            let mut s = Script::new(m);
            let x = s.k(&BigUint::from(base));
            let r = s.pow(&x, &(m - &one));
            f(&format!("{} passes Fermat's test to base {}", if m == &p { "the field order" } else { "the scalar order" }, base), s.prove(&format!("(= {} 1)", r)), m.to_string());
        }
    }
    out
}

fn ask(cmd: &str, args: &[&str], script: &str) -> String {
    let mut c = Command::new("timeout").arg("300").arg(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    c.stdin.take().unwrap().write_all(script.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    String::from_utf8_lossy(&o.stdout).trim().to_string()
}

pub fn run(thorough: bool, root: &str) -> i32 {
    let t0 = Instant::now();
    let mut fs = vec![];
    for (name, r) in [
        ("bn256", std::panic::catch_unwind(|| facts("bn256", &JubJubBN256::new()))),
        ("bls12_381", std::panic::catch_unwind(|| facts("bls12_381", &JubJubBLS12_381::new()))),
    ] {
        match r {
            Ok(x) => fs.extend(x),
            // the parameters cannot even be built
            Err(_) => fs.push(Fact { name: format!("{}: the parameters can be built", name), script: "(assert true)(check-sat)".into(), what: "panic".into() }),
        }
    }
    let hs: Vec<_> = fs
        .into_iter()
        .map(|f| {
            std::thread::spawn(move || {
                let t = Instant::now();
                let r = ask("z3-new", &["-in"], &f.script);
                let z = t.elapsed().as_secs_f64();
                let c = if thorough { Some(ask("cvc5", &["--lang=smt2"], &f.script)) } else { None };
                (f, r, z, c)
            })
        })
        .collect();
    let mut viol = vec![];
    let mut errs = vec![];
    let (mut n, mut time, mut cross, mut ops) = (0, 0.0, 0, 0);
    let mut names = vec![];
    for h in hs {
        let (f, r, z, c) = h.join().unwrap();
        n += 1;
        time += z;
        ops += f.script.matches("declare-const").count();
        names.push(f.name.clone());
        match r.as_str() {
            "unsat" => {
                if let Some(c) = c {
                    match c.as_str() {
                        "unsat" => cross += 1,
                        "sat" => errs.push(format!("{}: z3 says unsat, cvc5 says sat", f.name)),
                        _ => {}
                    }
                }
            }
            "sat" => viol.push(f),
            o => errs.push(format!("{}: solver said {:?}", f.name, o)),
        }
    }
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", root));
    let ev = json!({
        "property": "C20", "tier": if thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": n, "transitions": ops, "traces_validated_against_impl": 2,
            "samples": names,
            "functions_encoded": ["JubJubBN256::new and JubJubBLS12_381::new (run; their accessors supply every constant)", "Fr/Fs characteristics of both parameter sets"],
            "bounds": ["the two shipped parameter sets, at full size; no quantified variables"],
            "outside_the_claim": "primality of the field orders is tested (Fermat, three bases), not proved; Euler's criterion, Hasse's theorem and the completeness of the Edwards addition law for non-square d are used as theorems",
            "queries_discharged": n, "solver_s": time, "cross_checked_with_cvc5": cross,
            "solver": "z3-new (QF_NIA, closed formulas)",
            "explanation": "states = closed facts; transitions = modular operations in them; the two parameter sets read from the compiled code are the validated traces"
        },
        "assumptions": ["z3 answers are right (cvc5 cross-check in the thorough tier)"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol.len()
    });
    std::fs::write(format!("{}/evidence/C20.json", root), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("C20: facts={} operations={} solver={:.1}s cross={} wall={:.1}s", n, ops, time, cross, t0.elapsed().as_secs_f64());
    for (i, f) in viol.iter().enumerate() {
        let path = format!("{}/evidence/replays/C20-{}.smt2", root, i);
        let _ = std::fs::write(&path, &f.script);
        println!("  {} does not hold: {}", f.name, f.what);
        println!("VIOLATION property=C20 replay={}", path);
    }
    for e in &errs {
        println!("ERROR {}", e);
    }
    if !viol.is_empty() {
        1
    } else if !errs.is_empty() {
        2
    } else {
        0
    }
}
