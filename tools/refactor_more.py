"""More changes that keep the behaviour, as somebody tidying the code might make them (used with run_edits.py)."""
TY = "rx509/src/der/types.rs"
PAR = "rx509/src/der/parser.rs"
CAL = "rx509/src/der/calendar.rs"
RD = "rx509/src/der/reader.rs"
PA = "rx509/src/der/parse_all.rs"
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
PR = "rx509/src/x509/printer.rs"
MAIN = "decoder/src/main.rs"
DP = "decoder/src/der_printer.rs"
USAGE = """        let mut key_usage = KeyUsage {
            digital_signature: false,
            content_commitment: false,
            key_encipherment: false,
            data_encipherment: false,
            key_agreement: false,
            key_cert_sign: false,
            crl_sign: false,
            encipher_only: false,
            decipher_only: false,
        };
        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
        Ok(key_usage)"""
FLAGS = """        Ok(KeyUsage {
            digital_signature: X0,
            content_commitment: X1,
            key_encipherment: X2,
            data_encipherment: X3,
            key_agreement: X4,
            key_cert_sign: X5,
            crl_sign: X6,
            encipher_only: X7,
            decipher_only: X8,
        })"""


def flags(f):
    s = FLAGS
    for k in range(9):
        s = s.replace("X%d," % k, f % k + ",")
    return s


EDITS = [
    # --- x509/mod.rs
    ("r3-cert-let", [], [(MOD, """            Parser::parse_all(p1.expect::<Sequence>()?, |p2| {
                Ok(Certificate::new(
                    TBSCertificate::parse(p2.expect::<Sequence>()?)?,
                    AlgorithmIdentifier::parse(p2.expect::<Sequence>()?)?,
                    p2.expect::<BitString>()?,
                ))
            })""", """            let outer = p1.expect::<Sequence>()?;
            Parser::parse_all(outer, |p2| {
                let tbs = p2.expect::<Sequence>().and_then(TBSCertificate::parse)?;
                let signature_algorithm = p2.expect::<Sequence>().and_then(AlgorithmIdentifier::parse)?;
                p2.expect::<BitString>().map(|signature_value| Certificate::new(tbs, signature_algorithm, signature_value))
            })""")]),
    ("r3-tbs-let", [], [(MOD, """            Ok(TBSCertificate::new(
                parse_version(parser)?,
                parser.expect::<Integer>()?,
                AlgorithmIdentifier::parse(parser.expect::<Sequence>()?)?,
                Name::new(parser.expect::<Sequence>()?),
                Validity::parse(parser.expect::<Sequence>()?)?,
                Name::new(parser.expect::<Sequence>()?),
                SubjectPublicKeyInfo::parse(parser.expect::<Sequence>()?)?,
                parse_optional_bitstring(parser, 1)?,
                parse_optional_bitstring(parser, 2)?,
                parse_extensions(parser)?,
            ))""", """            let version = parse_version(parser)?;
            let serial_number = parser.expect::<Integer>()?;
            let signature = AlgorithmIdentifier::parse(parser.expect::<Sequence>()?)?;
            let issuer = parser.expect::<Sequence>().map(Name::new)?;
            let validity = Validity::parse(parser.expect::<Sequence>()?)?;
            let subject = parser.expect::<Sequence>().map(Name::new)?;
            let subject_public_key_info = SubjectPublicKeyInfo::parse(parser.expect::<Sequence>()?)?;
            let mut unique_ids = [None, None];
            for (tag, id) in (1u8..).zip(unique_ids.iter_mut()) {
                *id = parse_optional_bitstring(parser, tag)?;
            }
            let [issuer_unique_id, subject_unique_id] = unique_ids;
            Ok(TBSCertificate {
                version,
                serial_number,
                signature,
                issuer,
                validity,
                subject,
                subject_public_key_info,
                issuer_unique_id,
                subject_unique_id,
                extensions: parse_extensions(parser)?,
            })""")]),
    ("r3-version-table", [], [(MOD, """                Some(value) => match value.as_i32() {
                    Some(0) => Ok(Version::V1),
                    Some(1) => Ok(Version::V2),
                    Some(2) => Ok(Version::V3),
                    Some(x) => Err(ASNErrorVariant::BadEnumValue("version", x)),
                    None => Err(ASNErrorVariant::IntegerTooLarge(value.bytes.len())),
                },
                None => Ok(Version::V1),""", """                Some(value) => {
                    const VERSIONS: [Version; 3] = [Version::V1, Version::V2, Version::V3];
                    let number = value
                        .as_i32()
                        .ok_or_else(|| ASNErrorVariant::IntegerTooLarge(value.bytes.len()))?;
                    if number < 0 {
                        return Err(ASNErrorVariant::BadEnumValue("version", number));
                    }
                    VERSIONS
                        .get(number as usize)
                        .copied()
                        .ok_or(ASNErrorVariant::BadEnumValue("version", number))
                }
                None => Ok(Version::V1),""")]),
    ("r3-uid-map", [], [(MOD, """            match parser.get_optional_explicit_tag(tag)? {
                Some(tag) => Parser::parse_all(tag.contents, |parser| {
                    Ok(Some(parser.parse_implicit::<BitString>()?))
                }),
                None => Ok(None),
            }""", """            parser
                .get_optional_explicit_tag(tag)?
                .map(|tag| Parser::parse_all(tag.contents, |p| p.parse_implicit::<BitString>()))
                .transpose()""")]),
    ("r3-ext-map", [], [(MOD, """            if let Some(tag) = parser.get_optional_explicit_tag(3)? {
                Ok(Some(Extensions::new(tag.contents)))
            } else {
                Ok(None)
            }""", """            let tag = parser.get_optional_explicit_tag(3)?;
            Ok(tag.map(|t| Extensions::new(t.contents)))""")]),
    ("r3-valid-contains", [], [(MOD, "        now >= self.not_before && now <= self.not_after", "        (self.not_before..=self.not_after).contains(&now)")]),
    ("r3-valid-not", [], [(MOD, "        now >= self.not_before && now <= self.not_after", "        if now < self.not_before {\n            return false;\n        }\n        !(self.not_after < now)")]),
    ("r3-valid-seconds", [], [(MOD, "        now >= self.not_before && now <= self.not_after", "        let (from, to, now) = (self.not_before.value, self.not_after.value, now.value);\n        from <= now && now <= to")]),
    ("r3-name-dowhile", [], [(MOD, """            result.parse_single(parser.expect::<Sequence>()?)?;
            while let Some(seq) = parser.expect_or_end::<Sequence>()? {
                result.parse_single(seq)?;
            }""", """            let mut next = Some(parser.expect::<Sequence>()?);
            while let Some(seq) = next {
                result.parse_single(seq)?;
                next = parser.expect_or_end::<Sequence>()?;
            }""")]),
    ("r3-name-helper", [], [(MOD, """            let mut parser = Parser::new(set);

            // Parse the RelativeDistinguishedName
            // expect at least one entry!
            result.parse_single(parser.expect::<Sequence>()?)?;
            while let Some(seq) = parser.expect_or_end::<Sequence>()? {
                result.parse_single(seq)?;
            }
        }

        Ok(result)
    }
""", """            result.parse_set(set)?;
        }

        Ok(result)
    }

    fn parse_set(&mut self, set: &'a [u8]) -> Result<(), ASNErrorVariant> {
        let mut parser = Parser::new(set);
        // expect at least one entry!
        let first = parser.expect::<Sequence>()?;
        self.parse_single(first)?;
        loop {
            match parser.expect_or_end::<Sequence>()? {
                Some(seq) => self.parse_single(seq)?,
                None => return Ok(()),
            }
        }
    }
""")]),
    ("r3-attribute-slot", [], [(MOD, """            match oid.values() {
                [2, 5, 4, 3] => fill_name_component(&value, &mut self.common_name, &oid),
                [2, 5, 4, 6] => fill_name_component(&value, &mut self.country_name, &oid),
                [2, 5, 4, 7] => fill_name_component(&value, &mut self.locality_name, &oid),
                [2, 5, 4, 8] => {
                    fill_name_component(&value, &mut self.state_or_province_unit_name, &oid)
                }
                [2, 5, 4, 10] => fill_name_component(&value, &mut self.organization, &oid),
                [2, 5, 4, 11] => {
                    fill_name_component(&value, &mut self.organizational_unit_name, &oid)
                }
                _ => Ok(()), // ignore the AVAs we don't recognize
            }""", """            let component = match oid.values() {
                [2, 5, 4, attribute] => match attribute {
                    3 => &mut self.common_name,
                    6 => &mut self.country_name,
                    7 => &mut self.locality_name,
                    8 => &mut self.state_or_province_unit_name,
                    10 => &mut self.organization,
                    11 => &mut self.organizational_unit_name,
                    _ => return Ok(()),
                },
                _ => return Ok(()), // ignore the AVAs we don't recognize
            };
            fill_name_component(&value, component, &oid)""")]),
    ("r3-attribute-replace", [], [(MOD, """            match component {
                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),
                None => {
                    *component = Some(str_value);
                    Ok(())
                }
            }""", """            if component.is_some() {
                return Err(ASNErrorVariant::UnexpectedOid(oid.clone()));
            }
            component.replace(str_value);
            Ok(())""")]),
    ("r3-attribute-value", [], [(MOD, """            let str_value = match &value {
                ASNType::IA5String(value) => value.value,
                ASNType::PrintableString(value) => value.value,
                ASNType::UTF8String(value) => value.value,
                _ => {
                    return Err(ASNErrorVariant::UnexpectedType(
                        ASNTypeId::PrintableString,
                        value.get_id(),
                    ))
                }
            };
""", """            fn text<'c>(value: &ASNType<'c>) -> Option<&'c str> {
                match value {
                    ASNType::IA5String(v) => Some(v.value),
                    ASNType::PrintableString(v) => Some(v.value),
                    ASNType::UTF8String(v) => Some(v.value),
                    _ => None,
                }
            }
            let str_value = text(value).ok_or_else(|| {
                ASNErrorVariant::UnexpectedType(ASNTypeId::PrintableString, value.get_id())
            })?;
""")]),
    ("r3-rdn-default", [], [(MOD, """pub struct RelativeDistinguishedName<'a> {
    pub country""", """#[derive(Default)]
pub struct RelativeDistinguishedName<'a> {
    pub country"""), (MOD, """        Self {
            country_name: None,
            state_or_province_unit_name: None,
            locality_name: None,
            organization: None,
            organizational_unit_name: None,
            common_name: None,
        }""", "        Self::default()")]),
    ("r3-spki-question", [], [(MOD, """            Ok(SubjectPublicKeyInfo::new(
                AlgorithmIdentifier::parse(parser.expect::<Sequence>()?)?,
                parser.expect::<BitString>()?,
            ))""", """            let seq = parser.expect::<Sequence>()?;
            let algorithm = AlgorithmIdentifier::parse(seq)?;
            let subject_public_key = parser.expect::<BitString>()?;
            Ok(SubjectPublicKeyInfo { algorithm, subject_public_key })""")]),
    ("r3-validity-array", [], [(MOD, """            Ok(Validity::new(
                parser.expect::<UtcTime>()?,
                parser.expect::<UtcTime>()?,
            ))""", """            let times = [parser.expect::<UtcTime>()?, parser.expect::<UtcTime>()?];
            Ok(Validity::new(times[0], times[1]))""")]),
    ("r3-no-parse-all", [], [(MOD, """        Parser::parse_all(input, |parser| {
            Ok(Validity::new(
                parser.expect::<UtcTime>()?,
                parser.expect::<UtcTime>()?,
            ))
        })""", """        let mut parser = Parser::new(input);
        let not_before = parser.expect::<UtcTime>()?;
        let not_after = parser.expect::<UtcTime>()?;
        parser.expect_end()?;
        Ok(Validity::new(not_before, not_after))""")]),
    # --- ext.rs
    ("r3-exts-loop", [], [(EXT, """        while let Some(seq) = parser.expect_or_end::<Sequence>()? {
            extensions.push(Extension::parse(seq)?);
        }
        Ok(extensions)""", """        loop {
            let seq = match parser.expect_or_end::<Sequence>()? {
                Some(seq) => seq,
                None => break Ok(extensions),
            };
            let extension = Extension::parse(seq)?;
            extensions.push(extension);
        }""")]),
    ("r3-exts-from-fn", [], [(EXT, """        let mut extensions: Vec<Extension> = Vec::new();
        let mut parser = Parser::unwrap_outer_sequence(self.raw_content)?;
        while let Some(seq) = parser.expect_or_end::<Sequence>()? {
            extensions.push(Extension::parse(seq)?);
        }
        Ok(extensions)""", """        let mut parser = Parser::unwrap_outer_sequence(self.raw_content)?;
        core::iter::from_fn(|| parser.expect_or_end::<Sequence>().transpose())
            .map(|seq| Extension::parse(seq?))
            .collect()""")]),
    ("r3-ext-split", [], [(EXT, """            let content = match oid.values() {
                [2, 5, 29, 14] => SubjectKeyIdentifier::parse(raw_content)?.into(),
                [2, 5, 29, 15] => KeyUsage::parse(raw_content)?.into(),
                [2, 5, 29, 17] => SubjectAlternativeName::parse(raw_content)?.into(),
                [2, 5, 29, 19] => BasicConstraints::parse(raw_content)?.into(),
                [2, 5, 29, 37] => ExtendedKeyUsage::parse(raw_content)?.into(),
                [1, 3, 6, 1, 4, 1, 50316, 802, 1] => ModbusRole::parse(raw_content)?.into(),
                _ => SpecificExtension::Unknown(raw_content),
            };

            Ok(Extension::new(oid, is_critical, content))
        })?;
        Ok(ret)
    }
}
""", """            let content = SpecificExtension::parse(&oid, raw_content)?;
            Ok(Extension::new(oid, is_critical, content))
        })?;
        Ok(ret)
    }
}

const MODBUS_ROLE: &[u32] = &[1, 3, 6, 1, 4, 1, 50316, 802, 1];

impl<'a> SpecificExtension<'a> {
    fn parse(oid: &ASNObjectIdentifier, raw_content: &'a [u8]) -> Result<Self, ASNErrorVariant> {
        if oid.values() == MODBUS_ROLE {
            return ModbusRole::parse(raw_content).map(Into::into);
        }
        let arc = match oid.values() {
            [2, 5, 29, arc] => *arc,
            _ => return Ok(SpecificExtension::Unknown(raw_content)),
        };
        Ok(match arc {
            14 => SubjectKeyIdentifier::parse(raw_content)?.into(),
            15 => KeyUsage::parse(raw_content)?.into(),
            17 => SubjectAlternativeName::parse(raw_content)?.into(),
            19 => BasicConstraints::parse(raw_content)?.into(),
            37 => ExtendedKeyUsage::parse(raw_content)?.into(),
            _ => SpecificExtension::Unknown(raw_content),
        })
    }
}
""")]),
    ("r3-usage-enumerate", [], [(EXT, """        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {""", """        for (offset, bit) in bit_string.iter().enumerate() {
            match offset {"""), (EXT, "            offset += 1;\n        }\n        Ok(key_usage)", "        }\n        Ok(key_usage)")]),
    ("r3-usage-next", [], [(EXT, """        let mut key_usage = KeyUsage {
            digital_signature: false,
            content_commitment: false,
            key_encipherment: false,
            data_encipherment: false,
            key_agreement: false,
            key_cert_sign: false,
            crl_sign: false,
            encipher_only: false,
            decipher_only: false,
        };
        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
        Ok(key_usage)""", """        let mut bits = bit_string.iter();
        let mut flag = || bits.next().unwrap_or(false);
        Ok(KeyUsage {
            digital_signature: flag(),
            content_commitment: flag(),
            key_encipherment: flag(),
            data_encipherment: flag(),
            key_agreement: flag(),
            key_cert_sign: flag(),
            crl_sign: flag(),
            encipher_only: flag(),
            decipher_only: flag(),
        })""")]),
    ("r3-usage-bit", [], [(EXT, """        let mut key_usage = KeyUsage {
            digital_signature: false,
            content_commitment: false,
            key_encipherment: false,
            data_encipherment: false,
            key_agreement: false,
            key_cert_sign: false,
            crl_sign: false,
            encipher_only: false,
            decipher_only: false,
        };
        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
        Ok(key_usage)""", """        let has = |n: usize| bit_string.iter().nth(n).unwrap_or(false);
        Ok(KeyUsage {
            digital_signature: has(0),
            content_commitment: has(1),
            key_encipherment: has(2),
            data_encipherment: has(3),
            key_agreement: has(4),
            key_cert_sign: has(5),
            crl_sign: has(6),
            encipher_only: has(7),
            decipher_only: has(8),
        })""")]),
    ("r3-basic-ok-or", [], [(EXT, """        let constraint = parser.get_optional::<Integer>()?;
        let constraint = match constraint {
            Some(value) => match value.as_i32() {
                Some(value) => Ok(Some(value)),
                None => Err(ASNErrorVariant::IntegerTooLarge(value.bytes.len())),
            },
            None => Ok(None),
        }?;
        parser.expect_end()?;

        Ok(BasicConstraints {
            ca,
            path_length_constraint: constraint,
        })""", """        let path_length_constraint = parser
            .get_optional::<Integer>()?
            .map(|value| {
                value
                    .as_i32()
                    .ok_or(ASNErrorVariant::IntegerTooLarge(value.bytes.len()))
            })
            .transpose()?;
        parser.expect_end().map(|()| BasicConstraints { ca, path_length_constraint })""")]),
    ("r3-basic-default", [], [(EXT, "        let ca = parser.get_optional_or_default::<Boolean>(false)?;", "        let ca = parser.get_optional::<Boolean>()?.unwrap_or_default();")]),
    ("r3-purpose-const", [], [(EXT, """        match oid.values() {
            [1, 3, 6, 1, 5, 5, 7, 3, 1] => Some(ExtendedKeyUsagePurpose::ServerAuth),
            [1, 3, 6, 1, 5, 5, 7, 3, 2] => Some(ExtendedKeyUsagePurpose::ClientAuth),
            [1, 3, 6, 1, 5, 5, 7, 3, 3] => Some(ExtendedKeyUsagePurpose::CodeSigning),
            [1, 3, 6, 1, 5, 5, 7, 3, 4] => Some(ExtendedKeyUsagePurpose::EmailProtection),
            [1, 3, 6, 1, 5, 5, 7, 3, 8] => Some(ExtendedKeyUsagePurpose::TimeStamping),
            [1, 3, 6, 1, 5, 5, 7, 3, 9] => Some(ExtendedKeyUsagePurpose::OCSPSigning),
            _ => None,
        }""", """        const ID_KP: [u32; 8] = [1, 3, 6, 1, 5, 5, 7, 3];
        let (last, prefix) = oid.values().split_last()?;
        if prefix != ID_KP {
            return None;
        }
        Some(match last {
            1 => ExtendedKeyUsagePurpose::ServerAuth,
            2 => ExtendedKeyUsagePurpose::ClientAuth,
            3 => ExtendedKeyUsagePurpose::CodeSigning,
            4 => ExtendedKeyUsagePurpose::EmailProtection,
            8 => ExtendedKeyUsagePurpose::TimeStamping,
            9 => ExtendedKeyUsagePurpose::OCSPSigning,
            _ => return None,
        })""")]),
    ("r3-purpose-strip", [], [(EXT, """        match oid.values() {
            [1, 3, 6, 1, 5, 5, 7, 3, 1] => Some(ExtendedKeyUsagePurpose::ServerAuth),
            [1, 3, 6, 1, 5, 5, 7, 3, 2] => Some(ExtendedKeyUsagePurpose::ClientAuth),
            [1, 3, 6, 1, 5, 5, 7, 3, 3] => Some(ExtendedKeyUsagePurpose::CodeSigning),
            [1, 3, 6, 1, 5, 5, 7, 3, 4] => Some(ExtendedKeyUsagePurpose::EmailProtection),
            [1, 3, 6, 1, 5, 5, 7, 3, 8] => Some(ExtendedKeyUsagePurpose::TimeStamping),
            [1, 3, 6, 1, 5, 5, 7, 3, 9] => Some(ExtendedKeyUsagePurpose::OCSPSigning),
            _ => None,
        }""", """        match oid.values().strip_prefix(&[1, 3, 6, 1, 5, 5, 7, 3]) {
            Some([1]) => Some(ExtendedKeyUsagePurpose::ServerAuth),
            Some([2]) => Some(ExtendedKeyUsagePurpose::ClientAuth),
            Some([3]) => Some(ExtendedKeyUsagePurpose::CodeSigning),
            Some([4]) => Some(ExtendedKeyUsagePurpose::EmailProtection),
            Some([8]) => Some(ExtendedKeyUsagePurpose::TimeStamping),
            Some([9]) => Some(ExtendedKeyUsagePurpose::OCSPSigning),
            _ => None,
        }""")]),
    ("r3-purposes-ok-or", [], [(EXT, """            match ExtendedKeyUsagePurpose::try_from_id(&oid) {
                Some(purpose) => purposes.push(purpose),
                None => return Err(ASNErrorVariant::UnexpectedOid(oid)),
            }""", """            let purpose = ExtendedKeyUsagePurpose::try_from_id(&oid)
                .ok_or_else(|| ASNErrorVariant::UnexpectedOid(oid))?;
            purposes.push(purpose);""")]),
    ("r3-san-let", [], [(EXT, """            let mut parser = Parser::new(tag.contents);
            match tag.value {
                // TODO: parse the other types
                1 => names.push(GeneralName::Rfc822Name(
                    parser.parse_implicit::<IA5String>()?,
                )),
                2 => names.push(GeneralName::DnsName(parser.parse_implicit::<IA5String>()?)),
                6 => names.push(GeneralName::UniformResourceIdentifier(
                    parser.parse_implicit::<IA5String>()?,
                )),
                7 => names.push(GeneralName::IpAddress(
                    parser.parse_implicit::<OctetString>()?,
                )),
                8 => names.push(GeneralName::RegisteredId(
                    parser.parse_implicit::<ObjectIdentifier>()?,
                )),

                _ => return Err(ASNErrorVariant::UnexpectedTag(tag.value)),
            };""", """            let mut inner = Parser::new(tag.contents);
            let name = match tag.value {
                // TODO: parse the other types
                1 | 2 | 6 => {
                    let text = inner.parse_implicit::<IA5String>()?;
                    match tag.value {
                        1 => GeneralName::Rfc822Name(text),
                        2 => GeneralName::DnsName(text),
                        _ => GeneralName::UniformResourceIdentifier(text),
                    }
                }
                7 => GeneralName::IpAddress(tag.contents),
                8 => GeneralName::RegisteredId(inner.parse_implicit::<ObjectIdentifier>()?),
                other => return Err(ASNErrorVariant::UnexpectedTag(other)),
            };
            names.push(name);""")]),
    ("r3-key-direct", [], [(EXT, """        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
        Ok(SubjectKeyIdentifier { key_identifier })""", """        Parser::parse_all(input, Parser::expect::<OctetString>)
            .map(|key_identifier| SubjectKeyIdentifier { key_identifier })""")]),
    # --- parser.rs
    ("r3-length-fold", [], [(PAR, """    let mut value: usize = 0;

    for _ in 0..count_of_bytes {
        value <<= 8;
        value |= reader.read_byte()? as usize;
    }
""", """    let value = (0..count_of_bytes).try_fold(0usize, |value, _| {
        reader.read_byte().map(|byte| value << 8 | usize::from(byte))
    })?;
""")]),
    ("r3-length-take", [], [(PAR, """    let mut value: usize = 0;

    for _ in 0..count_of_bytes {
        value <<= 8;
        value |= reader.read_byte()? as usize;
    }
""", """    let mut value: usize = 0;
    for byte in reader.take(count_of_bytes as usize)? {
        value = value * 256 + *byte as usize;
    }
""")]),
    ("r3-length-min", [], [(PAR, """    let min_value_for_count: u64 = match count_of_bytes {
        0 => return Err(ASNErrorVariant::UnsupportedIndefiniteLength),
        127 => return Err(ASNErrorVariant::ReservedLengthValue),
        // anything < these numbers indicate the value should have been encoded with fewer bytes
        1 => 128,
        2 => 256,
        3 => 65536,
        4 => 16777216,
        _ => return""", """    let min_value_for_count: u64 = match count_of_bytes {
        0 => return Err(ASNErrorVariant::UnsupportedIndefiniteLength),
        127 => return Err(ASNErrorVariant::ReservedLengthValue),
        // anything < these numbers indicate the value should have been encoded with fewer bytes
        1 => 0x80,
        2..=4 => 1 << (8 * (u64::from(count_of_bytes) - 1)),
        _ => return""")]),
    ("r3-length-bytes", [], [(PAR, """    let mut value: usize = 0;

    for _ in 0..count_of_bytes {
        value <<= 8;
        value |= reader.read_byte()? as usize;
    }
""", """    let mut octets = [0u8; 8];
    for octet in octets.iter_mut().skip(8 - count_of_bytes as usize) {
        *octet = reader.read_byte()?;
    }
    let value = u64::from_be_bytes(octets) as usize;
""")]),
    ("r3-oid-vec", [], [(PAR, """    let mut items: Vec<u32> = Vec::new();

    // the first two arcs share a subidentifier, and only arc 2 allows a second arc above 39
    let first = parse_one(&mut reader)?;
    let root = core::cmp::min(first / 40, 2);

    items.push(root);
    items.push(first - root * 40);
""", """    let first = parse_one(&mut reader)?;
    let mut items = match first {
        0..=39 => vec![0, first],
        40..=79 => vec![1, first - 40],
        _ => vec![2, first - 80],
    };
""")]),
    ("r3-oid-for", [], [(PAR, """        let mut sum: u32 = 0;
        let mut count: u32 = 0;
        loop {
            // only allow 4*7 = 28 bits so that we don't overflow u32
            if count > 3 {
                return Err(ASNErrorVariant::BadOidLength);
            };

            let next_byte = reader.read_byte()?;
            // the encoding of a subidentifier must not be padded with leading zeros
            if count == 0 && next_byte == 0b1000_0000 {
                return Err(ASNErrorVariant::BadOidLength);
            }
            let has_next: bool = (next_byte & 0b1000_0000) != 0;
            let value: u32 = (next_byte & 0b0111_1111) as u32;

            sum <<= 7;
            sum += value;

            count += 1;

            if !has_next {
                return Ok(sum);
            }
        }""", """        let mut sum: u32 = 0;
        // only allow 4*7 = 28 bits so that we don't overflow u32
        for position in 0..4 {
            let byte = reader.read_byte()?;
            if byte == 0x80 && position == 0 {
                return Err(ASNErrorVariant::BadOidLength);
            }
            sum = sum << 7 | u32::from(byte & 0x7F);
            if byte < 0x80 {
                return Ok(sum);
            }
        }
        Err(ASNErrorVariant::BadOidLength)""")]),
    ("r3-bits-match", [], [(PAR, """    if contents.is_empty() {
        return Err(ASNErrorVariant::EndOfStream);
    }

    let unused_bits = contents[0];
    // there are no bits to leave unused if there are no octets
    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {
        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
    }

    Ok(BitString::asn(ASNBitString::new(
        unused_bits,
        &contents[1..],
    )))""", """    match contents {
        [] => Err(ASNErrorVariant::EndOfStream),
        [0, octets @ ..] => Ok(BitString::asn(ASNBitString::new(0, octets))),
        [unused @ 1..=7, octets @ ..] if !octets.is_empty() => {
            Ok(BitString::asn(ASNBitString::new(*unused, octets)))
        }
        [unused, ..] => Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(*unused)),
    }""")]),
    ("r3-expect-question", [], [(PAR, """        match self.expect_any() {
            Ok(asn_type) => {
                let id = asn_type.get_id();
                match T::get_value(asn_type) {
                    Some(value) => Ok(value),
                    None => Err(ASNErrorVariant::UnexpectedType(T::get_id(), id)),
                }
            }
            Err(err) => Err(err),
        }""", """        let element = self.expect_any()?;
        let actual = element.get_id();
        T::get_value(element).ok_or_else(|| ASNErrorVariant::UnexpectedType(T::get_id(), actual))""")]),
    ("r3-peek-type", [], [(PAR, """        if self.reader.is_empty() {
            return Ok(None);
        }

        let id = Identifier::from(self.reader.peek_byte()?);

        match read_type(&id) {
            Some((ASNTypeId::ExplicitTag, actual_tag)) if tag == actual_tag => {
                Ok(Some(self.expect::<ExplicitTag>()?))
            }
            Some(_) => Ok(None),
            None => Err(ASNErrorVariant::UnsupportedId(id)),
        }
    }
""", """        match self.peek_type()? {
            Some((ASNTypeId::ExplicitTag, actual_tag)) if tag == actual_tag => {
                self.expect::<ExplicitTag>().map(Some)
            }
            _ => Ok(None),
        }
    }

    fn peek_type(&self) -> Result<Option<(ASNTypeId, u8)>, ASNErrorVariant> {
        let id = match self.reader.peek_byte() {
            Ok(byte) => Identifier::from(byte),
            Err(_) => return Ok(None),
        };
        match read_type(&id) {
            None => Err(ASNErrorVariant::UnsupportedId(id)),
            found => Ok(found),
        }
    }
"""), (PAR, """        if self.reader.is_empty() {
            return Ok(None);
        }

        let id = Identifier::from(self.reader.peek_byte()?);

        match read_type(&id) {
            Some((ref id, _)) if *id == T::get_id() => Ok(Some(self.expect::<T>()?)),
            Some(_) => Ok(None),
            None => Err(ASNErrorVariant::UnsupportedId(id)),
        }""", """        match self.peek_type()? {
            Some((id, _)) if id == T::get_id() => self.expect::<T>().map(Some),
            _ => Ok(None),
        }""")]),
    ("r3-next-some", [], [(PAR, """        match parse_one_type(&mut self.reader) {
            Err(e) => {
                self.reader.clear();
                Some(Err(e))
            }
            Ok(token) => Some(Ok(token)),
        }""", """        let result = parse_one_type(&mut self.reader);
        if result.is_err() {
            self.reader.clear();
        }
        Some(result)""")]),
    ("r3-end-match", [], [(PAR, """        match self.next() {
            None => Ok(()),
            Some(Err(err)) => Err(err),
            Some(Ok(asn)) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),
        }""", """        match self.expect_any_or_end()? {
            Some(asn) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),
            None => Ok(()),
        }""")]),
    ("r3-implicit-let", [], [(PAR, """        let result = match T::get_value(parse_content(&T::get_id(), 0, self.reader.remainder())?) {
            Some(value) => Ok(value),
            None => panic!("Wrapper should have returned a {:?}!", T::get_id()),
        };
        self.reader.clear();
        result""", """        let element = parse_content(&T::get_id(), 0, self.reader.remainder())?;
        self.reader.clear();
        let value = T::get_value(element);
        Ok(value.unwrap_or_else(|| panic!("Wrapper should have returned a {:?}!", T::get_id())))""")]),
    ("r3-digits-parse", [], [(PAR, """    fn read_digit(inner: &mut Reader) -> Result<u64, ASNErrorVariant> {
        const DIGIT: core::ops::RangeInclusive<u8> = b'0'..=b'9';
        let b = inner.read_byte().map_err(|_| ASNErrorVariant::BadUTCTime)?;
        if DIGIT.contains(&b) {
            return Ok(u64::from(b - DIGIT.start()));
        }
        Err(ASNErrorVariant::BadUTCTime)
    }
""", """    fn read_digit(inner: &mut Reader) -> Result<u64, ASNErrorVariant> {
        match inner.read_byte() {
            Ok(b) => match (b as char).to_digit(10) {
                Some(digit) => Ok(u64::from(digit)),
                None => Err(ASNErrorVariant::BadUTCTime),
            },
            Err(_) => Err(ASNErrorVariant::BadUTCTime),
        }
    }
""")]),
    ("r3-digits-sub", [], [(PAR, """        if DIGIT.contains(&b) {
            return Ok(u64::from(b - DIGIT.start()));
        }
        Err(ASNErrorVariant::BadUTCTime)
    }
""", """        let digit = b.wrapping_sub(*DIGIT.start());
        if digit > 9 {
            Err(ASNErrorVariant::BadUTCTime)
        } else {
            Ok(digit.into())
        }
    }
""")]),
    ("r3-year-add", [], [(PAR, """                let hi = if lo >= 50 { 19 } else { 20 };
                (hi, lo)""", """                return Ok(if lo < 50 { 2000 + lo } else { 1900 + lo });"""), (PAR, "        let (year_hi, year_lo) = match self {\n            TimeType::Utc => {", "        let (year_hi, year_lo): (u64, u64) = match self {\n            TimeType::Utc => {")]),
    # --- calendar, reader, types
    ("r3-feb-bool", [], [(CAL, """    if (year % 4 == 0) && ((year % 100 != 0) || (year % 400 == 0)) {
        29
    } else {
        28
    }""", """    let leap = match (year % 4, year % 100, year % 400) {
        (_, _, 0) => true,
        (_, 0, _) => false,
        (0, _, _) => true,
        _ => false,
    };
    28 + u64::from(leap)""")]),
    ("r3-months-loop", [], [(CAL, """    let days_before_month_in_year = match month {
        1 => 0,
        2 => JAN,
        3 => JAN + feb,
        4 => JAN + feb + MAR,
        5 => JAN + feb + MAR + APR,
        6 => JAN + feb + MAR + APR + MAY,
        7 => JAN + feb + MAR + APR + MAY + JUN,
        8 => JAN + feb + MAR + APR + MAY + JUN + JUL,
        9 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG,
        10 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP,
        11 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + OCT,
        12 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + OCT + NOV,
        _ => unreachable!(), // `read_two_digits` already bounds-checked it.
    };""", """    let lengths = [JAN, feb, MAR, APR, MAY, JUN, JUL, AUG, SEP, OCT, NOV];
    let days_before_month_in_year = lengths.iter().take(month as usize - 1).sum::<u64>();""")]),
    ("r3-seconds-horner", [], [(CAL, "        (days_before * 24 * 60 * 60) + (hours * 60 * 60) + (minutes * 60) + seconds;", "        ((days_before * 24 + hours) * 60 + minutes) * 60 + seconds;")]),
    ("r3-epoch-sub", [], [(CAL, """    debug_assert!(days_before_year_ad >= DAYS_BEFORE_UNIX_EPOCH_AD);
    Ok(days_before_year_ad - DAYS_BEFORE_UNIX_EPOCH_AD)""", """    days_before_year_ad
        .checked_sub(DAYS_BEFORE_UNIX_EPOCH_AD)
        .ok_or(ASNErrorVariant::BadUTCTime)""")]),
    ("r3-take-checked", [], [(RD, """        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;
        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(ret)""", """        if count > self.bytes.len() {
            return Err(EndOfStream);
        }
        let (taken, rest) = self.bytes.split_at(count);
        self.bytes = rest;
        Ok(taken)""")]),
    ("r3-take-replace", [], [(RD, """        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;
        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(ret)""", """        match (self.bytes.get(..count), self.bytes.get(count..)) {
            (Some(taken), Some(rest)) => {
                self.bytes = rest;
                Ok(taken)
            }
            _ => Err(EndOfStream),
        }""")]),
    ("r3-peek-ok-or", [], [(RD, """        match self.bytes.first() {
            None => Err(EndOfStream),
            Some(x) => Ok(*x),
        }""", "        self.bytes.first().copied().ok_or(EndOfStream)")]),
    ("r3-read-peek", [], [(RD, """        let (first, remainder) = self.bytes.split_first().ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(*first)""", """        let byte = self.peek_byte()?;
        self.bytes = &self.bytes[1..];
        Ok(byte)""")]),
    # --- generic decoding
    ("r3-contents-fn", [], [(PA, """                let contents = match asn {
                    ASNType::Sequence(wrapper) => wrapper.value,
                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
                    ASNType::Set(wrapper) => wrapper.value,
                    _ => continue,
                };
                handler.begin_constructed();
                parsers.push(Parser::new(contents));""", """                if let Some(contents) = inside(&asn) {
                    handler.begin_constructed();
                    parsers.push(Parser::new(contents));
                }"""), (PA, "pub fn parse_all(", """fn inside<'a>(asn: &ASNType<'a>) -> Option<&'a [u8]> {
    match asn {
        ASNType::Sequence(wrapper) => Some(wrapper.value),
        ASNType::Set(wrapper) => Some(wrapper.value),
        ASNType::ExplicitTag(wrapper) => Some(wrapper.value.contents),
        _ => None,
    }
}

pub fn parse_all(""")]),
    ("r3-levels-len", [], [(PA, """                parsers.pop();
                if !parsers.is_empty() {
                    handler.end_constructed();
                }""", """                if parsers.len() > 1 {
                    handler.end_constructed();
                }
                parsers.pop();""")]),
    ("r3-error-map", [], [(PA, """                let err = err.into();
                handler.on_error(&err);
                return Err(err);""", """                let err = ASNError::from(err);
                handler.on_error(&err);
                return Err(err);""")]),
    # --- printing
    ("r3-print-type-closure", [], [(PR, """    printer.begin_line();
    printer.println_fmt(&format_args!("{}:", name));
    printer.begin_type();
    printable.print(printer);
    printer.end_type();
}
""", """    printer.begin_line();
    printer.println_fmt(&format_args!("{}:", name));
    nested(printer, &|printer| printable.print(printer));
}

fn nested(printer: &mut dyn LinePrinter, body: &dyn Fn(&mut dyn LinePrinter)) {
    printer.begin_type();
    body(printer);
    printer.end_type();
}
""")]),
    ("r3-tbs-print-order", [], [(MOD, """        if let Some(issuer_unique_id) = &self.issuer_unique_id {
            print_type("issuer unique ID", issuer_unique_id, printer);
        }
        if let Some(subject_unique_id) = &self.subject_unique_id {
            print_type("subject unique ID", subject_unique_id, printer);
        }
""", """        let unique_ids = [
            ("issuer unique ID", &self.issuer_unique_id),
            ("subject unique ID", &self.subject_unique_id),
        ];
        for (label, id) in unique_ids.iter() {
            if let Some(id) = id {
                print_type(label, id, printer);
            }
        }
""")]),
    ("r3-usage-print-list", [], [(EXT, """        if self.encipher_only {
            print_usage("encipher only", printer)
        }
        if self.decipher_only {
            print_usage("decipher only", printer)
        }""", """        for &(set, description) in &[
            (self.encipher_only, "encipher only"),
            (self.decipher_only, "decipher only"),
        ] {
            if set {
                print_usage(description, printer);
            }
        }""")]),
    ("r3-main-slice", [], [(MAIN, """    if args.len() != 3 {
        eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
        process::exit(-1);
    }

    match args[1].as_str() {
        "--der" => parse_der(&get_bytes(&args[2])?),
        "--certs" => parse_x509(&get_bytes(&args[2])?),
        unknown => {
            eprintln!("Unknown flag: {}", unknown);
            process::exit(-1);
        }
    }""", """    let (flag, file) = match args.as_slice() {
        [_, flag, file] => (flag.as_str(), file),
        _ => {
            eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
            process::exit(-1);
        }
    };
    let decode: fn(&[u8]) -> Result<(), std::io::Error> = match flag {
        "--der" => parse_der,
        "--certs" => parse_x509,
        unknown => {
            eprintln!("Unknown flag: {}", unknown);
            process::exit(-1);
        }
    };
    decode(&get_bytes(file)?)""")]),
    ("r3-main-if-let", [], [(MAIN, """        parse_all(bytes, &mut der_printer::ParsePrinter::new()).or_else(|err| {
            eprintln!("Error: {}", err);
            Ok(())
        })""", """        let mut printer = der_printer::ParsePrinter::new();
        if let Err(err) = parse_all(bytes, &mut printer) {
            eprintln!("Error: {}", err);
        }
        Ok(())""")]),
    ("r3-dump-exact", [], [(DP, """                for chunk in octets.chunks(16) {
                    self.print_indent();
                    if let Some((last, first)) = chunk.split_last() {
                        for byte in first {
                            print!("{:02X}:", byte)
                        }
                        println!("{:02X}", last)
                    }
                }""", """                for line in octets.chunks(16) {
                    self.print_line(line);
                }"""), (DP, "impl ParseHandler for ParsePrinter {", """impl ParsePrinter {
    fn print_line(&self, line: &[u8]) {
        self.print_indent();
        for (index, byte) in line.iter().enumerate() {
            if index > 0 {
                print!(":");
            }
            print!("{:02X}", byte);
        }
        println!();
    }
}

impl ParseHandler for ParsePrinter {""")]),
    ("r3-usage-mask", [], [(EXT, USAGE, """        let mut mask: u16 = 0;
        for (offset, bit) in bit_string.iter().take(9).enumerate() {
            mask |= u16::from(bit) << offset;
        }
""" + flags("mask & (1 << %d) != 0"))]),
    ("r3-usage-array", [], [(EXT, USAGE, """        let mut flags = [false; 9];
        for (flag, bit) in flags.iter_mut().zip(bit_string.iter()) {
            *flag = bit;
        }
""" + flags("flags[%d]"))]),
    ("r3-usage-vec", [], [(EXT, USAGE, """        let bits: Vec<bool> = bit_string.iter().take(9).collect();
        let flag = |n: usize| bits.get(n).copied().unwrap_or(false);
""" + flags("flag(%d)"))]),
    ("r3-usage-while", [], [(EXT, "        for bit in bit_string.iter() {\n            match offset {", "        let mut bits = bit_string.iter();\n        while let Some(bit) = bits.next() {\n            match offset {")]),
    ("r3-usage-slots", [], [(EXT, """        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
""", """        let slots = [
            &mut key_usage.digital_signature,
            &mut key_usage.content_commitment,
            &mut key_usage.key_encipherment,
            &mut key_usage.data_encipherment,
            &mut key_usage.key_agreement,
            &mut key_usage.key_cert_sign,
            &mut key_usage.crl_sign,
            &mut key_usage.encipher_only,
            &mut key_usage.decipher_only,
        ];
        for (slot, bit) in core::array::IntoIter::new(slots).zip(bit_string.iter()) {
            *slot = bit;
        }
""")]),
    ("r3-usage-set", [], [(EXT, """            match offset {
                0 => key_usage.digital_signature = bit,""", """            if offset > 8 {
                break;
            }
            match offset {
                0 => key_usage.digital_signature = bit,""")]),
    ("r3-usage-only-set", [], [(EXT, """        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
""", """        for bit in bit_string.iter() {
            let current = offset;
            offset += 1;
            if !bit {
                continue;
            }
            match current {
                0 => key_usage.digital_signature = true,
                1 => key_usage.content_commitment = true,
                2 => key_usage.key_encipherment = true,
                3 => key_usage.data_encipherment = true,
                4 => key_usage.key_agreement = true,
                5 => key_usage.key_cert_sign = true,
                6 => key_usage.crl_sign = true,
                7 => key_usage.encipher_only = true,
                8 => key_usage.decipher_only = true,
                _ => {}
            }
        }
""")]),
    ("r3-usage-filter-set", [], [(EXT, """        let mut offset: usize = 0;
        for bit in bit_string.iter() {
            match offset {
                0 => key_usage.digital_signature = bit,
                1 => key_usage.content_commitment = bit,
                2 => key_usage.key_encipherment = bit,
                3 => key_usage.data_encipherment = bit,
                4 => key_usage.key_agreement = bit,
                5 => key_usage.key_cert_sign = bit,
                6 => key_usage.crl_sign = bit,
                7 => key_usage.encipher_only = bit,
                8 => key_usage.decipher_only = bit,
                _ => {}
            }
            offset += 1;
        }
""", """        for (offset, _) in bit_string.iter().enumerate().filter(|(_, bit)| *bit) {
            match offset {
                0 => key_usage.digital_signature = true,
                1 => key_usage.content_commitment = true,
                2 => key_usage.key_encipherment = true,
                3 => key_usage.data_encipherment = true,
                4 => key_usage.key_agreement = true,
                5 => key_usage.key_cert_sign = true,
                6 => key_usage.crl_sign = true,
                7 => key_usage.encipher_only = true,
                8 => key_usage.decipher_only = true,
                _ => {}
            }
        }
""")]),
]
