"""Changes that break a property (used with run_edits.py)."""
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
PAR = "rx509/src/der/parser.rs"
EDITS = [
    ("ku-order", ["C23"], [(EXT, "3 => key_usage.data_encipherment = bit", "3 => key_usage.key_agreement = bit"), (EXT, "4 => key_usage.key_agreement = bit", "4 => key_usage.data_encipherment = bit")]),
    ("ku-break9", ["C23"], [(EXT, "            offset += 1;\n", "            offset += 1;\n            if offset == 8 {\n                break;\n            }\n")]),
    ("ku-or", ["C23"], [(EXT, "5 => key_usage.key_cert_sign = bit,", "5 => key_usage.key_cert_sign = bit || key_usage.crl_sign,"), (EXT, "6 => key_usage.crl_sign = bit,", "6 => key_usage.crl_sign = bit || key_usage.key_cert_sign,")]),
    ("bc-default", ["C24"], [(EXT, "let ca = parser.get_optional_or_default::<Boolean>(false)?;", "let ca = parser.get_optional_or_default::<Boolean>(true)?;")]),
    ("bc-noend", ["C24", "C18"], [(EXT, "        }?;\n        parser.expect_end()?;\n\n        Ok(BasicConstraints", "        }?;\n\n        Ok(BasicConstraints")]),
    ("bc-toolarge", ["C24"], [(EXT, "None => Err(ASNErrorVariant::IntegerTooLarge(value.bytes.len())),", "None => Ok(None),")]),
    ("bc-abs", ["C24"], [(EXT, "Some(value) => Ok(Some(value)),", "Some(value) => Ok(Some(value.max(0))),")]),
    ("eku-skip", ["C25"], [(EXT, "None => return Err(ASNErrorVariant::UnexpectedOid(oid)),", "None => continue,")]),
    ("eku-table", ["C25"], [(EXT, "[1, 3, 6, 1, 5, 5, 7, 3, 8] => Some(ExtendedKeyUsagePurpose::TimeStamping)", "[1, 3, 6, 1, 5, 5, 7, 3, 8] => Some(ExtendedKeyUsagePurpose::OCSPSigning)")]),
    ("eku-prefix", ["C25"], [(EXT, "[1, 3, 6, 1, 5, 5, 7, 3, 9] =>", "[1, 3, 6, 1, 5, 5, 7, 3, 9, ..] =>")]),
    ("eku-dedup", ["C25"], [(EXT, "Some(purpose) => purposes.push(purpose),", "Some(purpose) => {\n                    if purposes.len() < 10 {\n                        purposes.push(purpose)\n                    }\n                }")]),
    ("san-dns-uri", ["C26"], [(EXT, "2 => names.push(GeneralName::DnsName(", "2 => names.push(GeneralName::Rfc822Name(")]),
    ("san-insert0", ["C26"], [(EXT, "7 => names.push(GeneralName::IpAddress(\n                    parser.parse_implicit::<OctetString>()?,\n                )),", "7 => names.insert(0, GeneralName::IpAddress(\n                    parser.parse_implicit::<OctetString>()?,\n                )),")]),
    ("san-ignore", ["C26"], [(EXT, "_ => return Err(ASNErrorVariant::UnexpectedTag(tag.value)),", "_ => {}")]),
    ("ski-any", ["C30", "C18"], [(EXT, "let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;", "let key_identifier = Parser::new(input).expect::<OctetString>()?;")]),
    ("ext-order", ["C22"], [(EXT, "extensions.push(Extension::parse(seq)?);", "let e = Extension::parse(seq)?;\n            if !extensions.iter().any(|x| x.critical && e.critical) {\n                extensions.push(e);\n            }")]),
    ("ext-swallow", ["C22", "C17"], [(EXT, "extensions.push(Extension::parse(seq)?);", "if let Ok(e) = Extension::parse(seq) {\n                extensions.push(e);\n            }")]),
    ("ext-crit", ["C22"], [(EXT, "Ok(Extension::new(oid, is_critical, content))", "let known = !matches!(content, SpecificExtension::Unknown(_));\n            Ok(Extension::new(oid, is_critical && known, content))")]),
    ("ext-oid", ["C22"], [(EXT, "[2, 5, 29, 19] => BasicConstraints", "[2, 5, 29, 19, ..] => BasicConstraints")]),
    ("cert-swap", ["C20"], [(MOD, "Name::new(parser.expect::<Sequence>()?),\n                Validity::parse(parser.expect::<Sequence>()?)?,\n                Name::new(parser.expect::<Sequence>()?),", "{ let _ = 0; Name::new(parser.expect::<Sequence>()?) },\n                Validity::parse(parser.expect::<Sequence>()?)?,\n                Name::new(&parser.expect::<Sequence>()?[0..0]),")]),
    ("cert-bytes", ["C19"], [(MOD, "        Ok(Constructed::new(\n            input,\n            Parser::parse_all(input, parse_tbs_cert)?,\n        ))", "        let value = Parser::parse_all(input, parse_tbs_cert)?;\n        let n = input.len() - value.extensions.as_ref().map(|_| 0).unwrap_or(1).min(input.len());\n        Ok(Constructed::new(&input[..n], value))")]),
    ("cert-noend", ["C18", "C19"], [(MOD, "            Parser::parse_all(p1.expect::<Sequence>()?, |p2| {\n                Ok(Certificate::new(\n                    TBSCertificate::parse(p2.expect::<Sequence>()?)?,\n                    AlgorithmIdentifier::parse(p2.expect::<Sequence>()?)?,\n                    p2.expect::<BitString>()?,\n                ))\n            })\n", "            let mut p2 = Parser::new(p1.expect::<Sequence>()?);\n                Ok(Certificate::new(\n                    TBSCertificate::parse(p2.expect::<Sequence>()?)?,\n                    AlgorithmIdentifier::parse(p2.expect::<Sequence>()?)?,\n                    p2.expect::<BitString>()?,\n                ))\n")]),
    ("ver-3", ["C21"], [(MOD, "Some(2) => Ok(Version::V3),", "Some(2) | Some(3) => Ok(Version::V3),")]),
    ("ver-missing", ["C21"], [(MOD, "None => Ok(Version::V1),\n            }\n        }", "None => Ok(Version::V2),\n            }\n        }")]),
    ("uid-swap", ["C21"], [(MOD, "parse_optional_bitstring(parser, 1)?,\n                parse_optional_bitstring(parser, 2)?,", "parse_optional_bitstring(parser, 2)?,\n                parse_optional_bitstring(parser, 1)?,")]),
    ("alg-params", ["C29"], [(MOD, "parser.expect_any_or_end()?,", "parser.expect_any_or_end()?.filter(|x| !matches!(x, ASNType::Null)),")]),
    ("alg-noend", ["C29", "C18"], [(MOD, "    fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {\n        Parser::parse_all(input, |parser| {\n            Ok(AlgorithmIdentifier::new(\n                parser.expect::<ObjectIdentifier>()?,\n                parser.expect_any_or_end()?,\n            ))\n        })", "    fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {\n        let mut parser = Parser::new(input);\n            Ok(AlgorithmIdentifier::new(\n                parser.expect::<ObjectIdentifier>()?,\n                parser.expect_any_or_end()?,\n            ))\n        ")]),
    ("valid-swap", ["C28"], [(MOD, "        Validity {\n            not_before,\n            not_after,\n        }", "        Validity {\n            not_before: not_after,\n            not_after: not_before,\n        }")]),
    ("valid-strict", ["C28"], [(MOD, "now <= self.not_after", "now < self.not_after")]),
    ("name-last", ["C27"], [(MOD, "Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),\n                None => {\n                    *component = Some(str_value);\n                    Ok(())\n                }", "_ => {\n                    *component = Some(str_value);\n                    Ok(())\n                }")]),
    ("name-table", ["C27"], [(MOD, "[2, 5, 4, 10] => fill_name_component(&value, &mut self.organization, &oid)", "[2, 5, 4, 10] => fill_name_component(&value, &mut self.organizational_unit_name, &oid)")]),
    ("name-first-only", ["C27"], [(MOD, "            while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n                result.parse_single(seq)?;\n            }\n", "")]),
    ("name-empty", ["C27"], [(MOD, "*component = Some(str_value);", "*component = if str_value.is_empty() { None } else { Some(str_value) };")]),
    ("expect-swallow", ["C17"], [(PAR, "            Some(Err(err)) => Err(err),\n            None => Ok(None),", "            Some(Err(_)) => Ok(None),\n            None => Ok(None),")]),
    ("expect-end", ["C18", "C16"], [(PAR, "Some(Ok(asn)) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),", "Some(Ok(ASNType::Null)) => Ok(()),\n            Some(Ok(asn)) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),")]),
    ("get-opt", ["C16"], [(PAR, "None => Err(ASNErrorVariant::UnexpectedType(T::get_id(), id)),", "None => Err(ASNErrorVariant::UnexpectedType(id, T::get_id())),")]),
]
