//! Reference semantics of topic matching

pub fn matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if topic.starts_with('$') && (f[0] == "+" || f[0] == "#") {
        return false;
    }
    fn rec(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (Some(&"#"), _) => f.len() == 1,
            (None, None) => true,
            (Some(&"+"), Some(_)) => rec(&f[1..], &t[1..]),
            (Some(a), Some(b)) => a == b && rec(&f[1..], &t[1..]),
            _ => false,
        }
    }
    rec(&f, &t)
}
