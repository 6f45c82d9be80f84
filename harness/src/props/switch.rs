use super::*;
use crate::src_::*;
use dreammaker::indents::IndentProcessor;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::BTreeSet;

/// text and value of a number, if it is constant
fn number(s: &mut dyn Src, lo: i64, hi: i64) -> (String, Option<f32>) {
    let n = s.range(lo, hi);
    match s.below(14) {
        0 => (format!("{n}.5"), Some(if n < 0 { n as f32 - 0.5 } else { n as f32 + 0.5 })),
        1 => { let k = s.range(0, 5); (format!("{} + {k}", n - k), Some(n as f32)) },
        2 => { let k = s.range(1, 5); (format!("{} - {k}", n + k), Some(n as f32)) },
        3 if s.below(3) == 0 => ("N".into(), None),
        4 if s.below(3) == 0 => { let (t, v) = *pick(s, &[("2147483648.0", 2147483648f32), ("3e9", 3e9), ("-3e9", -3e9), ("-2147483648.0", -2147483648f32), ("2147483520", 2147483520f32), ("1e30", 1e30), ("-1e30", -1e30)]); (t.into(), Some(v)) },
        5 => (format!("({n})"), Some(n as f32)),
        _ => (n.to_string(), Some(n as f32)),
    }
}
fn up(v: f32) -> i64 { (v.ceil() as i32).into() }
fn down(v: f32) -> i64 { (v.floor() as i32).into() }

pub const C18: Prop = Prop {
    id: "C18", enumerate: false, finite: false,
    rule: "a switch on rand(H) or rand(L, H) with numbers, ranges, fractions, sums, huge and unknown numbers as cases; the cases that never trigger and the first number without a case are compared with a plain reading",
    run: |s| {
        let (rand, lo, hi) = if s.below(3) == 0 {
            let b = number(s, -2, 12);
            (format!("rand({})", b.0), Some(0.0), b.1)
        } else {
            let a = number(s, -3, 6);
            let b = number(s, 0, 14);
            (format!("rand({}, {})", a.0, b.0), a.1, b.1)
        };
        let mut t = format!("/var/const/N = 3\n/proc/f(l)\n\tswitch({rand})\n");
        let mut line = 4;
        let mut cases: Vec<(u32, Option<(i64, i64)>)> = vec![];
        let n = 1 + s.below(6);
        let mut next = lo.map_or(0, up).clamp(-3, 6);
        for _ in 0..n {
            let mut texts = vec![];
            for _ in 0..1 + s.below(3) {
                // mostly cases that meet
                let width = s.range(0, 3);
                if s.below(4) != 0 {
                    texts.push(if width == 0 { next.to_string() } else { format!("{next} to {}", next + width) });
                    cases.push((line, Some((next, next + width))));
                    next += width + 1;
                } else {
                    let a = number(s, -4, 15);
                    if s.bool() { cases.push((line, a.1.map(|x| (up(x), down(x))))); texts.push(a.0); continue; }
                    let b = number(s, -4, 15);
                    cases.push((line, match (a.1, b.1) { (Some(a), Some(b)) => Some((up(a), down(b))), _ => None }));
                    texts.push(format!("{} to {}", a.0, b.0));
                }
            }
            t += &format!("\t\tif({})\n\t\t\tl = 1\n", texts.join(", "));
            line += 2;
        }
        let other = s.below(4) == 0;
        if other { t += "\t\telse\n\t\t\tl = 2\n"; }
        t += "/datum/zlast\n";
        s.note(&|| t.clone());

        let mut want: Vec<(u32, Vec<i64>)> = vec![];
        if let (Some(lo), Some(hi)) = (lo, hi) {
            let (lo, hi) = (up(lo), down(hi));
            for (l, c) in &cases { if let Some((a, b)) = c { if *a > hi || *b < lo { want.push((*l, vec![*a, *b])); } } }
            let known: Vec<(i64, i64)> = cases.iter().filter_map(|c| c.1).collect();
            if !other && known.len() == cases.len() {
                let starts: BTreeSet<i64> = known.iter().map(|c| c.1 + 1).chain([lo]).filter(|x| lo <= *x && *x <= hi).collect();
                if let Some(x) = starts.into_iter().find(|x| !known.iter().any(|c| c.0 <= *x && *x <= c.1)) { want.push((3, vec![x])); }
            }
        }
        let ctx = Context::default();
        let pp = Preprocessor::from_buffer(&ctx, "t.dm".into(), t.clone());
        let mut parser = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
        parser.enable_procs();
        let tree = parser.parse_object_tree();
        ensure!(ctx.errors().is_empty(), "the harness wrote something the parser does not take: {:?}", ctx.errors().iter().map(|e| e.description().to_owned()).collect::<Vec<_>>());
        dreamchecker::run(&ctx, &tree);
        if !want.is_empty() || cases.len() > 3 { s.nontrivial(); }
        let mut have: Vec<(u32, String)> = ctx.errors().iter().filter(|e| e.component() == dreammaker::Component::DreamChecker && e.location().line >= 3 && !e.notes().iter().any(|_| true)).map(|e| (e.location().line, e.description().to_owned())).collect();
        for (l, n) in &want {
            let says = |d: &str| { let v: Vec<i64> = d.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|x| x.parse().ok()).collect(); n.iter().all(|x| v.contains(x)) };
            let Some(i) = have.iter().position(|h| (h.0 == *l || (h.0 == *l + 1 && n.len() > 1)) && says(&h.1)) else { return Err(format!("nothing is said of {} in line {l}; what is said: {have:?}", if n.len() > 1 { format!("a case for {} to {} which never triggers", n[0], n[1]) } else { format!("{}, for which there is no case,", n[0]) })); };
            have.remove(i);
        }
        ensure!(have.is_empty(), "reported without a reason: {have:?}");
        Ok(())
    },
};
