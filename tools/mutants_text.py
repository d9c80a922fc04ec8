# changes that treat text by its characters
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
TY = "rx509/src/der/types.rs"
PAR = "rx509/src/der/parser.rs"
ROLE = "        Ok(Self { role })"
SHOW = 'f.write_str("UTF8String: ")?;\n                f.write_str(wrapper.value)'
SAY = 'f.write_str("UTF8String: ")?;\n                '
EDITS = [
    ("tx-role-split", ["C30"], [(EXT, ROLE, "        Ok(Self { role: role.split('\\0').next().unwrap_or(\"\") })")]),
    ("tx-role-contains", ["C30"], [(EXT, ROLE, "        if role.contains(' ') {\n            return Err(ASNErrorVariant::BadUTCTime);\n        }\n        Ok(Self { role })")]),
    ("tx-role-ascii", ["C30"], [(EXT, ROLE, "        if !role.is_ascii() {\n            return Err(ASNErrorVariant::BadUTCTime);\n        }\n        Ok(Self { role })")]),
    ("tx-role-control", ["C30"], [(EXT, ROLE, "        if role.chars().any(|c| c.is_control()) {\n            return Err(ASNErrorVariant::BadUTCTime);\n        }\n        Ok(Self { role })")]),
    ("tx-role-once", ["C30"], [(EXT, ROLE, "        Ok(Self { role: role.split_once(':').map(|x| x.1).unwrap_or(role) })")]),
    ("tx-role-bytes", ["C30"], [(EXT, ROLE, "        if role.bytes().any(|b| b < 32) {\n            return Err(ASNErrorVariant::BadUTCTime);\n        }\n        Ok(Self { role })")]),
    ("tx-role-find", ["C30"], [(EXT, ROLE, "        Ok(Self { role: &role[..role.find(';').unwrap_or(role.len())] })")]),
    ("tx-role-rfind", ["C30"], [(EXT, ROLE, "        Ok(Self { role: &role[role.rfind('/').map(|i| i + 1).unwrap_or(0)..] })")]),
    ("tx-role-prefix", ["C30"], [(EXT, ROLE, "        Ok(Self { role: role.strip_prefix(\"role:\").unwrap_or(role) })")]),
    ("tx-role-match", ["C30"], [(EXT, ROLE, "        let role = match role {\n            \"admin\" => \"administrator\",\n            x => x,\n        };\n        Ok(Self { role })")]),
    ("tx-lower", ["C40"], [(TY, SHOW, SAY + "f.write_str(&wrapper.value.to_lowercase())")]),
    ("tx-ascii-lower", ["C40"], [(TY, SHOW, SAY + "f.write_str(&wrapper.value.to_ascii_lowercase())")]),
    ("tx-replace", ["C40"], [(TY, SHOW, SAY + "f.write_str(&wrapper.value.replace('\\n', \" \"))")]),
    ("tx-escape", ["C40"], [(TY, SHOW, SAY + "write!(f, \"{}\", wrapper.value.escape_debug())")]),
    ("tx-precision", ["C40"], [(TY, SHOW, SAY + "write!(f, \"{:.64}\", wrapper.value)")]),
    ("tx-chars", ["C40"], [(TY, SHOW, SAY + "f.write_str(&wrapper.value.chars().take(64).collect::<String>())")]),
    ("tx-each", ["C40"], [(TY, SHOW, SAY + "for c in wrapper.value.chars().filter(|c| !c.is_control()) {\n                    write!(f, \"{}\", c)?;\n                }\n                Ok(())")]),
    ("tx-lines", ["C40"], [(TY, SHOW, SAY + "f.write_str(wrapper.value.lines().next().unwrap_or(\"\"))")]),
    ("tx-words", ["C40"], [(TY, SHOW, SAY + "f.write_str(wrapper.value.split_whitespace().next().unwrap_or(\"\"))")]),
    ("tx-lossy", ["C40"], [(TY, SHOW, SAY + "f.write_str(&String::from_utf8_lossy(&wrapper.value.as_bytes()[..wrapper.value.len().min(200)]))")]),
]
EDITS += [
    ("tx-name-precision", ["C35"], [(MOD, 'println_fmt(&format_args!("O: {}", value))', 'println_fmt(&format_args!("O: {:.40}", value))')]),
]
