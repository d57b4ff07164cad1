// The declarations which bindgen would make of watcher-c.h: its constants and
// functions, and the event's layout, read from the header itself.
fn main() {
    let h = std::fs::read_to_string(std::env::var("SUT_C_HEADER").unwrap()).unwrap();
    println!("cargo:rerun-if-env-changed=SUT_C_HEADER");
    let mut text = String::new();
    let mut o = String::new();
    // no comments
    let mut rest = h.as_str();
    while let Some(i) = rest.find("/*") {
        text += &rest[..i];
        rest = &rest[i..][rest[i..].find("*/").unwrap() + 2..];
    }
    text += rest;
    let rust_type = |c: &str| -> String {
        let c = c.trim();
        match c {
            "int8_t" => "i8".into(),
            "int64_t" => "i64".into(),
            "char const*" | "const char*" => "*const ::std::os::raw::c_char".into(),
            _ => panic!("type {c}"),
        }
    };
    for l in text.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("static const int8_t ") {
            let (n, v) = r.trim_end_matches(';').split_once('=').unwrap();
            o += &format!("pub const {}: i8 = {};\n", n.trim(), v.trim());
        }
    }
    let s = &text[text.find("struct wtr_watcher_event {").unwrap()..];
    let body = &s[s.find('{').unwrap() + 1..s.find('}').unwrap()];
    o += "#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct wtr_watcher_event {\n";
    for f in body.split(';') {
        let f = f.trim();
        if f.is_empty() { continue; }
        let i = f.rfind(|c: char| c.is_whitespace() || c == '*').unwrap();
        o += &format!("    pub {}: {},\n", &f[i + 1..], rust_type(&f[..=i]));
    }
    o += "}\n";
    o += "pub type wtr_watcher_callback = ::std::option::Option<unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut ::std::os::raw::c_void)>;\n";
    o += "extern \"C\" {\n    pub fn wtr_watcher_open(path: *const ::std::os::raw::c_char, callback: wtr_watcher_callback, context: *mut ::std::os::raw::c_void) -> *mut ::std::os::raw::c_void;\n    pub fn wtr_watcher_close(watcher: *mut ::std::os::raw::c_void) -> bool;\n}\n";
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("watcher_c.rs"), o).unwrap();
}
