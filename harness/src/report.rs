//! Parses reports back & the tables of what they should say

use crate::reference::*;
use big_o_test::BigOAlgorithmComplexity as C;
use std::time::Duration;
use vcommon::*;

/// the words a verdict is presented with (properties C20 & C16)
const PHRASES: [&str; 17] = [
    "Better than O(1)", "O(1)", "Worse than O(1), but better than O(log(n))", "O(log(n))", "Worse than O(log(n)), but better than O(n)", "O(n)",
    "Worse than O(n), but better than O(n.log(n))", "O(n.log(n))", "Worse than O(n.log(n)), but better than O(n²)", "O(n²)",
    "Worse than O(n²), but better than O(n³)", "O(n³)", "Worse than O(n³), but better than O(n⁴)", "O(n⁴)",
    "Worse than O(n⁴), but better than O(kⁿ)", "O(kⁿ)", "Worse than O(kⁿ)",
];
/// the verdict a text names -- extra advice is accepted after the two extremes
pub fn verdict_named(text: &str) -> Option<usize> {
    if let Some(i) = PHRASES.iter().position(|p| *p == text) { return Some(i); }
    if text.starts_with("Better than O(1)") { return Some(0); }
    if text.starts_with("Worse than Exponential") || text.starts_with("Worse than O(kⁿ)") { return Some(16); }
    None
}
/// whether `text` contains the Debug form of `c` as a word of its own
pub fn names(text: &str, c: C) -> bool {
    let word = format!("{c:?}");
    text.split(|ch: char| !ch.is_alphanumeric()).any(|w| w == word)
}

/// an amount of memory as displayed
#[derive(Debug, Clone, PartialEq)]
pub struct Mem { pub sign: char, pub value: f64, pub unit: f64, pub text: String }
pub fn parse_mem(text: &str) -> Result<Mem, String> {
    let (sign, rest) = match text.chars().next() { Some(c @ ('+' | '-')) => (c, &text[1..]), _ => (' ', text) };
    let (num, unit) = if let Some(n) = rest.strip_suffix("GiB") { (n, (1u64 << 30) as f64) }
        else if let Some(n) = rest.strip_suffix("MiB") { (n, (1u64 << 20) as f64) }
        else if let Some(n) = rest.strip_suffix("KiB") { (n, 1024.0) }
        else if let Some(n) = rest.strip_suffix('b') { (n, 1.0) }
        else { return Err(format!("no memory unit in '{text}'")); };
    let value: f64 = num.parse().map_err(|_| format!("no number in '{text}'"))?;
    Ok(Mem { sign, value, unit, text: text.to_string() })
}
impl Mem {
    /// Checks that `bytes` is what is shown, in the biggest unit smaller than it
    pub fn check(&self, bytes: f64, sign: Option<char>) -> Result<(), String> {
        const F32: f64 = 4e-7;
        if let Some(sign) = sign { ensure_r!(self.sign == sign, "'{}' should have the sign '{}'", self.text, sign); }
        let shown = self.value * self.unit;
        ensure_r!((shown - bytes).abs() <= 0.00501 * self.unit + bytes * F32, "'{}' is shown instead of {bytes} bytes", self.text);
        let unit = if bytes > (1u64 << 30) as f64 { (1u64 << 30) as f64 } else if bytes > (1u64 << 20) as f64 { (1u64 << 20) as f64 } else if bytes > 1024.0 { 1024.0 } else { 1.0 };
        let on_edge = [1024.0, (1u64 << 20) as f64, (1u64 << 30) as f64].iter().any(|e| near(bytes, *e, 1e-6));
        ensure_r!(self.unit == unit || on_edge, "'{}' isn't in the proper unit for {bytes} bytes", self.text);
        Ok(())
    }
}

/// a duration displayed with any precision -- in seconds, with the size of the last digit shown
pub fn parse_duration(text: &str) -> Result<(f64, f64), String> {
    let (num, unit) = if let Some(n) = text.strip_suffix("ns") { (n, 1e-9) } else if let Some(n) = text.strip_suffix("µs") { (n, 1e-6) }
        else if let Some(n) = text.strip_suffix("ms") { (n, 1e-3) } else if let Some(n) = text.strip_suffix('s') { (n, 1.0) } else { return Err(format!("no time unit in '{text}'")) };
    let v: f64 = num.parse().map_err(|_| format!("no number in '{text}'"))?;
    let digits = num.split_once('.').map(|x| x.1.len()).unwrap_or(0);
    Ok((v * unit, unit * 10f64.powi(-(digits as i32))))
}

#[derive(Debug, Clone)]
pub struct Row { pub time: String, pub space: Mem, pub n: u64, pub rest: Vec<String> }
#[derive(Debug, Clone)]
pub struct Parsed { pub kind: &'static str, pub rows: [Row; 2], pub time_verdict: usize, pub space_verdict: usize, pub kept: (String, Mem), pub auxiliary: Mem, pub verdicts: [String; 2] }

/// parses one displayed analysis -- it must be the whole text
pub fn parse_analysis(text: &str, name: &str) -> Result<Parsed, String> {
    let rest = text.strip_prefix('\'').and_then(|t| t.strip_prefix(name)).and_then(|t| t.strip_prefix("' ")).ok_or_else(|| format!("the name '{name}' isn't shown"))?;
    let (kind, rest) = ["regular-algorithm", "constant set iterator-algorithm", "set resizing iterator-algorithm"].into_iter()
        .find_map(|k| rest.strip_prefix(k).and_then(|r| r.strip_prefix(" measurements:\n")).map(|r| (k, r))).ok_or("unknown kind of report")?;
    let mut lines = rest.lines();
    let header = lines.next().ok_or("no header")?;
    ensure_r!(header.starts_with("pass "), "no header: '{header}'");
    let mut row = |prefix: &str| -> Result<Row, String> {
        let l = lines.next().ok_or("missing row")?;
        let l = l.strip_prefix(prefix).ok_or_else(|| format!("no '{prefix}' row"))?;
        let t: Vec<&str> = l.split_whitespace().collect();
        ensure_r!(t.len() >= 4, "row too short: '{l}'");
        Ok(Row { time: t[0].to_string(), space: parse_mem(t[1])?, n: t[2].parse().map_err(|_| format!("no set size in '{l}'"))?, rest: t[3..].iter().map(|x| x.to_string()).collect() })
    };
    let rows = [row("1)")?, row("2)")?];
    let t = lines.next().and_then(|l| l.strip_prefix("--> Algorithm  Time Analysis: ")).ok_or("no time analysis")?;
    let s = lines.next().and_then(|l| l.strip_prefix("--> Algorithm Space Analysis: ")).ok_or("no space analysis")?;
    let (s, totals) = s.strip_suffix(')').and_then(|s| s.rsplit_once(" (")).ok_or("no space totals")?;
    ensure_r!(lines.next().is_none(), "unexpected text after the analysis");
    let (kept, aux) = totals.split_once("; auxiliary used space: ").ok_or("no auxiliary space")?;
    let (op, kept) = kept.split_once(": ").ok_or("no kept space")?;
    Ok(Parsed { kind, rows, time_verdict: verdict_named(t).ok_or_else(|| format!("unknown time verdict '{t}'"))?,
                space_verdict: verdict_named(s).ok_or_else(|| format!("unknown space verdict '{s}'"))?,
                kept: (op.to_string(), parse_mem(kept)?), auxiliary: parse_mem(aux)?, verdicts: [t.to_string(), s.to_string()] })
}

/// finds the (last) displayed regular analysis in some output
pub fn find_regular<'a>(output: &'a str, name: &str) -> Option<&'a str> {
    let start = output.rfind(&format!("'{name}' regular-algorithm measurements:\n"))?;
    let space = start + output[start..].find("--> Algorithm Space Analysis: ")?;
    let end = space + output[space..].find('\n')? + 1;
    Some(&output[start..end])
}

/// what a displayed pass should tell
#[derive(Clone, Copy, Debug)]
pub struct PassFacts { pub time: Duration, pub up: u64, pub down: u64, pub net: i64, pub n: u64 }

pub fn check_passes(p: &Parsed, facts: &[PassFacts; 2]) -> Result<(), String> {
    for (row, f) in p.rows.iter().zip(facts) {
        ensure_r!(row.time == format!("{:?}", f.time), "time '{}' is shown instead of {:?}", row.time, f.time);
        let sign = match f.net { n if n > 0 => '+', n if n < 0 => '-', _ => ' ' };
        row.space.check(f.up.max(f.down) as f64, Some(sign)).map_err(|e| format!("heap usage: {e}"))?;
        ensure_r!(row.n == f.n, "set size {} is shown instead of {}", row.n, f.n);
    }
    let net: i128 = facts[0].net as i128 + facts[1].net as i128;
    let aux: u64 = facts.iter().map(|f| f.up - f.net.max(0) as u64).sum();
    ensure_r!(p.kept.0 == if net >= 0 { "allocated" } else { "freed" }, "'{}' is shown for a total of {net} bytes", p.kept.0);
    p.kept.1.check(net.unsigned_abs() as f64, Some(' ')).map_err(|e| format!("total kept / freed: {e}"))?;
    p.auxiliary.check(aux as f64, Some(' ')).map_err(|e| format!("auxiliary: {e}"))?;
    Ok(())
}
/// time per element
pub fn check_time_per(text: &str, total: Duration, n: u64) -> Result<(), String> {
    let (v, digit) = parse_duration(text)?;
    let expected = total.as_secs_f64() / n as f64;
    // the division is done in floating point & rounded to nanoseconds
    ensure_r!((v - expected).abs() <= digit * 0.5001 + 1.01e-9 + expected * 1e-12, "'{text}' is shown as the time per element instead of {expected}s");
    Ok(())
}
