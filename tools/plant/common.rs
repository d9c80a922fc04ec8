// helpers shared by the demonstrations: a small DER writer and decoding shorthands
#[allow(dead_code)]
mod common {
    use rx509::der::*;
    use rx509::x509::ext::*;
    use rx509::x509::printer::*;
    use rx509::x509::Certificate;

    pub fn tlv(tag: u8, contents: &[u8]) -> Vec<u8> {
        let mut out = vec![tag];
        match contents.len() {
            n if n < 128 => out.push(n as u8),
            n if n < 256 => out.extend_from_slice(&[0x81, n as u8]),
            n => out.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]),
        }
        out.extend_from_slice(contents);
        out
    }
    pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
        parts.concat()
    }
    pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
        tlv(0x30, &parts.concat())
    }
    /// the elements of generic decoding, one string each, and the error if any
    #[derive(Default)]
    pub struct Log {
        pub lines: Vec<String>,
    }
    impl ParseHandler for Log {
        fn begin_constructed(&mut self) {
            self.lines.push("{".into());
        }
        fn end_constructed(&mut self) {
            self.lines.push("}".into());
        }
        fn on_type(&mut self, asn: &ASNType) {
            self.lines.push(format!("{:?}", asn));
        }
        fn on_error(&mut self, err: &ASNError) {
            self.lines.push(format!("error {:?}", err));
        }
    }
    pub fn der(input: &[u8]) -> (bool, Vec<String>) {
        let mut log = Log::default();
        let ok = parse_all(input, &mut log).is_ok();
        (ok, log.lines)
    }
    /// what on_type shows of each element by its Display text
    pub struct Shown(pub Vec<String>);
    impl ParseHandler for Shown {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, asn: &ASNType) {
            self.0.push(format!("{}", asn));
        }
        fn on_error(&mut self, err: &ASNError) {
            self.0.push(format!("{}", err));
        }
    }
    pub fn shown(input: &[u8]) -> Vec<String> {
        let mut s = Shown(vec![]);
        let _ = parse_all(input, &mut s);
        s.0
    }

    pub const RSA: &[u8] = &[6, 9, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 1, 1, 5];
    pub const NULL: &[u8] = &[5, 0];
    pub const EXT: [&[u8]; 6] = [
        &[6, 3, 0x55, 29, 14],
        &[6, 3, 0x55, 29, 15],
        &[6, 3, 0x55, 29, 17],
        &[6, 3, 0x55, 29, 19],
        &[6, 3, 0x55, 29, 37],
        &[6, 12, 0x2B, 6, 1, 4, 1, 0x83, 0x89, 0x0C, 0x86, 0x22, 1, 0],
    ];
    pub struct Cert {
        pub version: Vec<u8>,
        pub serial: Vec<u8>,
        pub alg: Vec<u8>,
        pub issuer: Vec<u8>,
        pub validity: Vec<u8>,
        pub subject: Vec<u8>,
        pub spki: Vec<u8>,
        pub rest: Vec<u8>,
        pub sig_alg: Vec<u8>,
        pub sig: Vec<u8>,
    }
    impl Default for Cert {
        fn default() -> Self {
            Cert {
                version: tlv(0xA0, &[2, 1, 2]),
                serial: vec![2, 1, 7],
                alg: seq(&[RSA, NULL]),
                issuer: name(&[(3, "ca")]),
                validity: seq(&[&tlv(0x17, b"200101000000Z"), &tlv(0x17, b"300101000000Z")]),
                subject: name(&[(3, "me")]),
                spki: seq(&[&seq(&[RSA, NULL]), &tlv(3, &[0, 1, 2, 3])]),
                rest: vec![],
                sig_alg: seq(&[RSA, NULL]),
                sig: tlv(3, &[0, 9, 9]),
            }
        }
    }
    impl Cert {
        pub fn der(&self) -> Vec<u8> {
            let tbs = seq(&[&self.version, &self.serial, &self.alg, &self.issuer, &self.validity, &self.subject, &self.spki, &self.rest]);
            seq(&[&tbs, &self.sig_alg, &self.sig])
        }
    }
    pub fn attribute(kind: u8, value: &str) -> Vec<u8> {
        seq(&[&[6, 3, 0x55, 4, kind], &tlv(0x0C, value.as_bytes())])
    }
    pub fn name(parts: &[(u8, &str)]) -> Vec<u8> {
        let sets: Vec<Vec<u8>> = parts.iter().map(|(k, v)| tlv(0x31, &attribute(*k, v))).collect();
        tlv(0x30, &sets.concat())
    }
    /// the contents of an Extension
    pub fn extension(id: &[u8], critical: bool, value: &[u8]) -> Vec<u8> {
        cat(&[id, if critical { &[1, 1, 0xFF] } else { &[] }, &tlv(4, value)])
    }
    /// the tagged list of extensions of a certificate
    pub fn extensions(list: &[Vec<u8>]) -> Vec<u8> {
        let all: Vec<Vec<u8>> = list.iter().map(|e| tlv(0x30, e)).collect();
        tlv(0xA3, &tlv(0x30, &all.concat()))
    }
    pub fn ext_ok<R>(bytes: &[u8], f: impl FnOnce(&Extension) -> R) -> R {
        let e = Extension::parse(bytes).expect("extension is well formed");
        f(&e)
    }
    pub fn cert_ok<R>(bytes: &[u8], f: impl FnOnce(&Certificate) -> R) -> R {
        let c = Certificate::parse(bytes).expect("certificate is well formed");
        f(&c)
    }
    /// a printer that records what it is told
    #[derive(Default)]
    pub struct Rec {
        pub ops: Vec<String>,
        pub depth: i64,
        pub lowest: i64,
    }
    impl LinePrinter for Rec {
        fn begin_type(&mut self) {
            self.depth += 1;
            self.ops.push("begin".into());
        }
        fn begin_line(&mut self) {
            self.ops.push("line".into());
        }
        fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
            self.ops.push(format!("+{}", fmt));
        }
        fn print_str(&mut self, s: &str) {
            self.ops.push(format!("+{}", s));
        }
        fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
            self.ops.push(format!("={}", fmt));
        }
        fn println_str(&mut self, line: &str) {
            self.ops.push(format!("={}", line));
        }
        fn end_type(&mut self) {
            self.depth -= 1;
            self.lowest = self.lowest.min(self.depth);
            self.ops.push("end".into());
        }
    }
    /// the printed text, and whether the calls were balanced and each line begun exactly once
    pub fn printed(p: &dyn Printable) -> (String, bool, bool) {
        let mut r = Rec::default();
        p.print(&mut r);
        let (mut text, mut open, mut lines) = (String::new(), 0, true);
        for o in &r.ops {
            match o.as_bytes()[0] {
                b'l' => {
                    open += 1;
                    lines &= open == 1;
                }
                b'+' => {
                    lines &= open == 1;
                    text.push_str(&o[1..]);
                }
                b'=' => {
                    lines &= open == 1;
                    open = 0;
                    text.push_str(&o[1..]);
                    text.push('\n');
                }
                _ => {}
            }
        }
        (text, r.depth == 0 && r.lowest == 0, lines && open == 0)
    }
}
#[allow(unused_imports)]
use common::*;
#[allow(unused_imports)]
use rx509::der::*;
#[allow(unused_imports)]
use rx509::x509::ext::*;
#[allow(unused_imports)]
use rx509::x509::Certificate;
