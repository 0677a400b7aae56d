AGF = "summarize/src/aggregate.rs"
AGGD = WRITER + """
use std::process::Command;
/// None if refused
fn aggregate(files: &[&str]) -> Option<String> {
    let bin = std::env::var("REPO_BIN").unwrap() + "/summarize";
    let o = Command::new(bin).arg("aggregate").args(files).output().unwrap();
    if o.status.success() { Some(String::from_utf8(o.stdout).unwrap()) } else { None }
}
fn section<'a>(o: &'a str, head: &str, kind: &str) -> &'a str {
    let start = o.match_indices(head).map(|(i, _)| i).find(|&i| o[i..].lines().next().unwrap().ends_with(kind)).unwrap();
    let rest = &o[start..];
    let n = rest.find('\\n').unwrap() + 1;
    let end = rest[n..].find("est ").map_or(rest.len(), |i| n + i);
    &rest[n..end]
}
"""
S("c23-boundary-count", "C23", [(AGF, "                    Which::Largest => value < least_extreme,  // `value < min(largest)`", "                    Which::Largest => value <= least_extreme, // `value < min(largest)`")], AGGD + """
fn main() {
    // gaps between points, the first recorded last: 10 distinct ones and then the shortest of them twice more
    let gaps = [10u64, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 10];
    let p = P::new("run");
    let mut t = 1000;
    p.instant("k", "p0", 1, t);
    for (i, g) in gaps.iter().enumerate() {
        t += g;
        p.instant("k", &format!("p{}", i + 1), 1, t);
    }
    drop(p);
    let o = aggregate(&["run"]).unwrap();
    assert!(section(&o, "Largest ", "durations:").contains("  10 ns: 3 occurrences"), "{}", o);
    assert!(section(&o, "Smallest ", "durations:").contains("  10 ns: 3 occurrences"), "{}", o);
}
""", "ten distinct durations already kept, then another interval of the least of them", "the number of intervals that have the least of the largest durations is too small")
S("c23-third-longer", "C23", [(AGF, "                for leftover_intervals in self.sample_intervals_per_profile.iter_mut() {", "                // The first profile is known to be at its end, compare it with the other one.\n                for leftover_intervals in self.sample_intervals_per_profile.iter_mut().take(2) {")], AGGD + """
fn main() {
    for (name, extra) in [("a", false), ("b", false), ("c", true)] {
        let p = P::new(name);
        if extra { p.interval("k", "before", 1, 10, 20); }
        p.interval("k", "x", 1, 100, 150);
        p.interval("k", "y", 1, 200, 250);
    }
    assert!(aggregate(&["a", "b"]).is_some());
    assert!(aggregate(&["a", "c"]).is_none());
    let o = aggregate(&["a", "b", "c"]);
    assert!(o.is_none(), "{:?}", o);
}
""", "at least three profiles, of which a later one has more intervals before those of the others", "profiles with different sequences are aggregated")
S("c23-middle-max", "C23", [(AGF, """                    min_duration = min_duration.min(duration);
                    max_duration = max_duration.max(duration);
""", """                    if duration < min_duration {
                        min_duration = duration;
                    } else {
                        max_duration = duration;
                    }
""")], AGGD + """
fn main() {
    for (name, d) in [("a", 100), ("b", 900), ("c", 500)] {
        let p = P::new(name);
        p.interval("k", "x", 1, 100, 100 + d);
    }
    let o = aggregate(&["a", "b", "c"]).unwrap();
    assert!(section(&o, "Largest ", "durations:").contains("  900 ns: "), "{}", o);
    assert!(section(&o, "Largest ", "variances:").contains("  ±400 ns: "), "{}", o);
}
""", "three profiles, the longest duration not in the last of them", "the longest duration and the spread are those of a later, shorter one")
