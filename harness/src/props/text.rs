//! C25: the differences of two texts (polodb_line_diff).
use crate::runner::Case;
use crate::src::Src;
use polodb_line_diff::{diff, format_differences, line_diff};

type R<T> = std::result::Result<T, String>;

fn line(s: &mut Src) -> String {
    match s.weighted(&[10, 3, 1]) {
        0 => s.pick(&["a", "b", "c", "d"]).to_string(),
        1 => s.pick(&["", " ", "@@ 1", "+ a", "- a", "a b", "é", "\t", "a ", "\u{1b}[0m"]).to_string(),
        _ => "long ".repeat(1 + s.idx(30)),
    }
}

fn edited(s: &mut Src, a: &[String]) -> Vec<String> {
    let mut b = a.to_vec();
    let n = s.weighted(&[2, 4, 3, 2, 1]);
    for _ in 0..n {
        match s.below(3) {
            0 => {
                let i = s.idx(b.len() + 1);
                b.insert(i, line(s));
            }
            1 if b.len() > 1 => {
                let i = s.idx(b.len());
                b.remove(i);
            }
            _ => {
                let i = s.idx(b.len());
                b[i] = line(s);
            }
        }
    }
    b
}

/// The least number of lines which are inserted, deleted or replaced.
fn distance(a: &[String], b: &[String]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for (i, x) in a.iter().enumerate() {
        let mut new = vec![i + 1];
        for (j, y) in b.iter().enumerate() {
            new.push((row[j] + (x != y) as usize).min(row[j + 1] + 1).min(new[j] + 1));
        }
        row = new;
    }
    row[b.len()]
}

struct Hunk {
    at: usize,
    plus: Vec<String>,
    minus: Vec<String>,
}

fn parse(text: &str) -> R<Hunk> {
    let mut ls = text.strip_suffix('\n').ok_or("mismatch: a difference does not end with a line break")?.split('\n');
    let head = ls.next().unwrap_or("");
    let at = head.strip_prefix("@@ ").and_then(|n| n.parse::<usize>().ok()).filter(|n| *n > 0).ok_or_else(|| format!("mismatch: a difference begins with {:?}", head))?;
    let mut h = Hunk { at: at - 1, plus: vec![], minus: vec![] };
    for l in ls {
        // the colour: ESC [ .. m
        let rest = l.strip_prefix('\u{1b}').and_then(|r| r.split_once('m')).map(|x| x.1).unwrap_or(l);
        let rest = if l.starts_with('\u{1b}') { rest.strip_suffix("\u{1b}[0m").unwrap_or(rest) } else { rest };
        if let Some(x) = rest.strip_prefix("+ ") {
            h.plus.push(x.into());
        } else if let Some(x) = rest.strip_prefix("- ") {
            h.minus.push(x.into());
        } else {
            return Err(format!("mismatch: a difference has the line {:?}", l));
        }
    }
    Ok(h)
}

pub fn c25(case: &mut Case) -> R<()> {
    let mut some = 0;
    for _ in 0..12 {
        let s = &mut case.s;
        let max = if s.chance(10) { 60 } else { 8 };
        let mut a = vec![line(s)];
        while s.more(a.len(), max, if max > 8 { 40 } else { 4 }) {
            a.push(line(s));
        }
        let b = if s.chance(75) {
            edited(s, &a)
        } else {
            let mut b = vec![line(s)];
            while s.more(b.len(), max, 4) {
                b.push(line(s));
            }
            b
        };
        let sep = *s.pick(&["\n", "\n", "\n", ",", "::"]);
        let (ta, tb) = (a.join(sep), b.join(sep));
        case.log(format!("{:?} and {:?} by {:?}", ta, tb, sep));
        let ds = if sep == "\n" && case.s.chance(50) { line_diff(&ta, &tb) } else { diff(&ta, &tb, sep) };
        if ds.is_empty() != (ta == tb) {
            return Err(format!("mismatch: {} differences between {:?} and {:?}", ds.len(), ta, tb));
        }
        let texts: Vec<String> = ds.iter().map(|d| d.to_string()).collect();
        if format_differences(&ds) != texts.concat() {
            return Err(format!("mismatch: the format of the differences between {:?} and {:?} is {:?}", ta, tb, format_differences(&ds)));
        }
        // applied to a, the differences give b
        let (mut i, mut out, mut changed) = (0, Vec::<String>::new(), 0);
        let what = |m: &str| format!("mismatch: {} (the differences between {:?} and {:?} are {:?})", m, ta, tb, texts);
        for t in &texts {
            let h = parse(t)?;
            let keep = if h.plus.is_empty() { h.at.checked_sub(i) } else { h.at.checked_sub(out.len()) };
            let keep = keep.ok_or_else(|| what("a position goes back"))?;
            if i + keep + h.minus.len() > a.len() {
                return Err(what("a position is behind the end"));
            }
            out.extend(a[i..i + keep].iter().cloned());
            i += keep;
            if a[i..i + h.minus.len()] != h.minus[..] {
                return Err(what("lines which are not there are deleted"));
            }
            i += h.minus.len();
            out.extend(h.plus.iter().cloned());
            changed += h.plus.len().max(h.minus.len());
        }
        out.extend(a[i..].iter().cloned());
        if out != b {
            return Err(what("applied to the first, they do not give the second"));
        }
        if changed != distance(&a, &b) {
            return Err(what(&format!("{} lines are changed, {} suffice", changed, distance(&a, &b))));
        }
        let equal = std::panic::catch_unwind(|| polodb_line_diff::assert_eq!(&ta, &tb)).is_ok();
        crate::runner::take_panic();
        if equal != (ta == tb) {
            return Err(format!("mismatch: assert_eq of {:?} and {:?} passes: {}", ta, tb, equal));
        }
        if !ds.is_empty() && ds.len() < a.len() {
            some += 1;
            case.class(["", "1 difference", "2 differences", "3 or more differences"][ds.len().min(3)]);
        }
    }
    case.nontrivial = some >= 5;
    Ok(())
}
