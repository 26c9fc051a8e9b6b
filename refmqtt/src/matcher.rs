//! Flat topic matching, MQTT 5.0 section 4.7, written directly from the text.
pub fn valid_filter(f: &str) -> bool {
    let levels: Vec<&str> = f.split('/').collect();
    let last = levels.len() - 1;
    for (i, l) in levels.iter().enumerate() {
        if l.contains('#') && (*l != "#" || i != last) {
            return false;
        }
        if l.contains('+') && *l != "+" {
            return false;
        }
    }
    true
}
pub fn valid_topic_name(t: &str) -> bool {
    !t.contains('+') && !t.contains('#')
}
pub fn matches(filter: &str, topic: &str) -> bool {
    // 4.7.2: first-level wildcards do not match topics beginning with '$'
    if topic.starts_with('$') && (filter.starts_with('#') || filter.starts_with('+')) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i == f.len() {
            return i == t.len();
        }
        if f[i] == "#" {
            // matches the parent level and any number of child levels
            return true;
        }
        if i == t.len() {
            return false;
        }
        if f[i] != "+" && f[i] != t[i] {
            return false;
        }
        i += 1;
    }
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn spec_examples() {
        for (f, t, m) in [
            ("sport/tennis/player1/#", "sport/tennis/player1", true),
            ("sport/tennis/player1/#", "sport/tennis/player1/ranking", true),
            ("sport/tennis/player1/#", "sport/tennis/player1/score/wimbledon", true),
            ("sport/#", "sport", true),
            ("#", "a/b", true),
            ("sport/tennis/+", "sport/tennis/player1", true),
            ("sport/tennis/+", "sport/tennis/player1/ranking", false),
            ("sport/+", "sport", false),
            ("sport/+", "sport/", true),
            ("+/+", "/finance", true),
            ("/+", "/finance", true),
            ("+", "/finance", false),
            ("#", "$SYS/x", false),
            ("+/monitor/Clients", "$SYS/monitor/Clients", false),
            ("$SYS/#", "$SYS/x", true),
            ("$SYS/monitor/+", "$SYS/monitor/Clients", true),
            ("a/+/#", "a/b", true),
            ("a/+/#", "a", false),
        ] {
            assert_eq!(matches(f, t), m, "{f} {t}");
        }
    }
}
