"""More edits that keep the behaviour (SPEC=tools/refactors2.py)."""
U, L = 'src/util.rs', 'src/lib.rs'
GROUPS = {}
# compiled regular expressions kept in statics; statistics; structured keys; a wrapper
GROUPS['r06'] = [
 (U, '''        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
        if let Some(caps) = re.captures(lat_string) {''', '''        static RE: std::sync::OnceLock<Regex> = std::sync::OnceLock::new();
        let re = RE.get_or_init(|| Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap());
        if let Some(caps) = re.captures(lat_string) {'''),
 (U, '''        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();''', '''        static RE: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap());
        let re = &*RE;'''),
 (L, '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
}''', '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
    accepted: u64,
    rejected: u64,
}'''),
 (L, '''            saved_vsds:      HashMap::new(),
''', '''            saved_vsds:      HashMap::new(),
            accepted:        0,
            rejected:        0,
'''),
 (L, '''    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {
''', '''    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {
        let result = self.parse_inner(sentence);
        match &result {
            Ok(_) => { self.accepted = self.accepted.wrapping_add(1); },
            Err(_) => { self.rejected = self.rejected.wrapping_add(1); },
        }
        debug!("accepted {}, rejected {}", self.accepted, self.rejected);
        result
    }

    fn parse_inner(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {
'''),
]
# one pending-store per kind with structured keys
GROUPS['r07'] = [
 (L, '''pub struct NmeaParser {
    saved_fragments: HashMap<String, String>,''', '''pub struct NmeaParser {
    saved_fragments: HashMap<FragmentKey, String>,'''),
 (L, '''/// Parser which keeps multi-sentence state''', '''/// What identifies a part of a multi-sentence message.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FragmentKey {
    kind: String,
    id: u64,
    count: u32,
    number: u32,
    channel: String,
}

impl From<&str> for FragmentKey {
    fn from(kind: &str) -> FragmentKey {
        FragmentKey { kind: kind.into(), id: 0, count: 0, number: 0, channel: String::new() }
    }
}

/// Parser which keeps multi-sentence state'''),
 (L, '''    fn push_string(&mut self, key: String, value: String) {''', '''    fn push_string(&mut self, key: FragmentKey, value: String) {'''),
 (L, '''    fn pull_string(&mut self, key: String) -> Option<String> {''', '''    fn pull_string(&mut self, key: FragmentKey) -> Option<String> {'''),
 (L, '''    fn contains_key(&mut self, key: String) -> bool {''', '''    fn contains_key(&self, key: FragmentKey) -> bool {'''),
 (U, '''pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count: u8, fragment_number: u8, radio_channel_code: &str) -> String {
    format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)
}''', '''pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count: u8, fragment_number: u8, radio_channel_code: &str) -> FragmentKey {
    FragmentKey {
        kind: sentence_type.clone(),
        id: message_id,
        count: fragment_count.into(),
        number: fragment_number.into(),
        channel: radio_channel_code.to_string(),
    }
}'''),
 ('src/gnss/gsv.rs', '''fn make_gsv_key(sentence_type: &str, msg_count: u32, msg_num: u32) -> String {
    format!("{},{},{}", sentence_type, msg_count, msg_num)
}''', '''fn make_gsv_key(sentence_type: &str, msg_count: u32, msg_num: u32) -> FragmentKey {
    FragmentKey { kind: sentence_type.into(), id: 0, count: msg_count, number: msg_num, channel: String::new() }
}'''),
 ('src/ais/vdm_t24.rs', '''    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
        // Vendor ID is present in part B only: similar parts do not complete each other
        if vsd.equipment_vendor_id.is_some() != vsd2.equipment_vendor_id.is_some() {
            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));
        }
    }
    store.push_vsd(vsd.mmsi, vsd);
    Ok(ParsedSentence::Incomplete)''', '''    match store.pull_vsd(vsd.mmsi) {
        Some(ref other) if other.equipment_vendor_id.is_none() == part_b => {
            let merged = vsd.merge(other)?;
            Ok(ParsedSentence::VesselStaticData(merged))
        },
        _ => {
            store.push_vsd(vsd.mmsi, vsd);
            Ok(ParsedSentence::Incomplete)
        },
    }'''),
 ('src/ais/vdm_t24.rs', '''    if a.is_some() {
        a
    } else {
        b
    }''', '''    a.or(b)'''),
 ('src/ais/vdm_t24.rs', '''    if a.is_some() {
        a.clone()
    } else {
        b.clone()
    }''', '''    a.as_ref().or(b.as_ref()).cloned()'''),
]
# bits: slices, iterators, chunks
GROUPS['r08'] = [
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
}''', '''    let mut res = 0;
    for i in 0 .. len {
        if index + i < bv.len() && bv[index + i] {
            res |= 1 << (len - 1 - i);
        }
    }
    res
}'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }

    let sign_bit = 1 << (len - 1);
    if res & sign_bit != 0 {
        ((res & (sign_bit - 1)) as i64) - (sign_bit as i64)
    } else {
        res as i64
    }''', '''    let res = pick_u64(bv, index, len) as i64;
    if res >= 1 << (len - 1) {
        res - (1 << len)
    } else {
        res
    }'''),
 (U, '''        let mut ci = match c {
            '0'..='W' | '`'..='w' => (c as u8) - 48,
            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
        };
        if ci > 40 {
            ci -= 8;
        }

        // Pick bits
        for i in 0..6 {
            bv.push(((ci >> (5 - i)) & 0x01) != 0);
        }
''', '''        let valid = ('0'..='W').contains(&c) || ('`'..='w').contains(&c);
        if !valid {
            return Err(format!("Invalid character in AIS payload: {}", c));
        }
        let code = c as u32;
        let ci = if code < 96 { code - 48 } else { code - 56 };

        // Pick bits
        bv.extend((0..6).rev().map(|i| ci & (1 << i) != 0));
'''),
 (U, '''    let char_size = 6;
    let mut res = String::with_capacity(char_count);
    for i in 0 .. char_count {
        let ch = pick_u64(bv, index + i * char_size, char_size) as u32;
        assert!(ch < 64);
        if ch == 0 {
            break;
        } else if ch < 32 {
            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))
        } else {
            res.push(std::char::from_u32(ch).unwrap_or(' '))
        }
    }
    res.trim_end().to_string()''', '''    const TABLE: &[u8; 64] = b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\\\]^_ !\\"#$%&'()*+,-./0123456789:;<=>?";
    let text: String = (0..char_count)
        .map(|i| TABLE[pick_u64(bv, index + 6 * i, 6) as usize] as char)
        .take_while(|c| *c != '@')
        .collect();
    text.trim_end().to_owned()'''),
 (U, '''    // This and next year
    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
                                  .and_then(|d| d.and_hms_opt(hour, minute, second));

    match this_year_eta {
        Some(eta) if now <= eta => Some(DateTime::<Utc>::from_utc(eta, Utc)),
        _ => next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)),
    }''', '''    // This and next year
    let in_year = |year: i32| NaiveDate::from_ymd_opt(year, month, day)
                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
    let eta = in_year(now.year()).filter(|eta| *eta >= now).or_else(|| in_year(now.year() + 1))?;
    Some(DateTime::<Utc>::from_utc(eta, Utc))'''),
]
# GNSS: a field reader, loops and early returns
GROUPS['r09'] = [
 ('src/gnss/gsv.rs', '''    let mut found_count = 0;
    for i in 1..(msg_count + 1) {
        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            found_count += 1;
        }
    }

    if found_count == msg_count {
        let mut v = Vec::new();
        for i in 1..(msg_count + 1) {
            if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                let split: Vec<&str> = sentence.split(',').collect();
                for j in 0..4 {
                    if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None) {
                        v.push(GsvData{
                            source: nav_system,
                            prn_number: prn,
                            elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),
                            azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),
                            snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None),
                        });
                    }
                }
            }
        }
        
        return Ok(ParsedSentence::Gsv(v));
    } else {
        return Ok(ParsedSentence::Incomplete);
    }''', '''    for i in 1..=msg_count {
        if !store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            return Ok(ParsedSentence::Incomplete);
        }
    }

    let parts: Vec<String> = (1..=msg_count)
        .filter_map(|i| store.pull_string(make_gsv_key(msg_type, msg_count, i)))
        .collect();
    let mut v = Vec::with_capacity(parts.len() * 4);
    for part in &parts {
        let fields: Vec<&str> = part.split(',').skip(4).collect();
        for block in fields.chunks(4).take(4) {
            let prn = match block[0].parse::<u8>() {
                Ok(prn) => prn,
                Err(_) => continue,
            };
            v.push(GsvData{
                source: nav_system,
                prn_number: prn,
                elevation:  block.get(1).and_then(|s| s.parse().ok()),
                azimuth:    block.get(2).and_then(|s| s.parse().ok()),
                snr:        block.get(3).and_then(|s| s.parse().ok()),
            });
        }
    }
    Ok(ParsedSentence::Gsv(v))'''),
 (L, '''        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
        let checksum_hex_calculated = format!("{:02X?}", checksum);
        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {''', '''        let bytes = sentence.as_bytes();
        let mut i = 1;
        while i < bytes.len() {
            checksum ^= bytes[i];
            i += 1;
        }
        let checksum_hex_calculated = format!("{:02X}", checksum);
        if !checksum_hex_given.is_empty() && checksum_hex_given != checksum_hex_calculated {'''),
 (L, '''            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
                return Err(''', '''            if let Some((head, _)) = sentence.split_once(',') {
                head.to_owned()
            } else {
                return Err('''),
 (L, '''                        if fragment_number == 1 {
                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }
                        } else if fragment_number == 2 {
                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key2.into(), payload_string);
                            }
                        } else {''', '''                        if fragment_number == 1 || fragment_number == 2 {
                            let (own, other) = if fragment_number == 1 { (key1, key2) } else { (key2, key1) };
                            match self.pull_string(other) {
                                Some(p) if fragment_number == 1 => {
                                    bv = Some(parse_payload(&[payload_string, p].concat())?);
                                }
                                Some(p) => {
                                    bv = Some(parse_payload(&[p, payload_string].join(""))?);
                                }
                                None => self.push_string(own, payload_string),
                            }
                        } else {'''),
 ('src/gnss/gsa.rs', '''            for i in 3..15 {
                if split.get(i).unwrap_or(&"") != &"" {
                    if let Some(val) = pick_number_field(&split, i)? {
                        v.push(val);
                    }
                }
            }''', '''            for s in split.iter().skip(3).take(12).filter(|s| !s.is_empty()) {
                v.push(s.parse::<u8>().map_err(|_| format!("Failed to parse satellite number: {}", s))?);
            }'''),
 (U, '''    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
                    return Ok(time)
                }
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));''', '''    let mut parts = [0u32; 3];
    for (i, part) in parts.iter_mut().enumerate() {
        *part = match hhmmss.get(2 * i..2 * i + 2).map(str::parse) {
            Some(Ok(n)) => n,
            _ => return Err(format!("Invalid time format: {}", hhmmss)),
        };
    }
    let [hour, minute, second] = parts;
    now.date().naive_utc().and_hms_opt(hour, minute, second)
        .map(|t| DateTime::<Utc>::from_utc(t, Utc))
        .ok_or(format!("Invalid time format: {}", hhmmss))'''),
]
