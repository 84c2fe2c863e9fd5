//! The committed list of known findings: `finding: id=<signature> property=<id> <what fails>`.
pub fn path() -> std::path::PathBuf {
    root().join("known_findings.txt")
}
pub fn root() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
/// (signature, property, text)
pub fn list() -> Vec<(String, String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path()).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut w = rest.splitn(3, ' ');
            let id = w.next().unwrap_or("").trim_start_matches("id=").to_string();
            let p = w.next().unwrap_or("").trim_start_matches("property=").to_string();
            out.push((id, p, w.next().unwrap_or("").to_string()));
        }
    }
    out
}
pub fn listed(property: &str, sig: &str) -> bool {
    thread_local! { static L: Vec<(String, String, String)> = list(); }
    L.with(|l| l.iter().any(|(i, p, _)| i == sig && p == property))
}
