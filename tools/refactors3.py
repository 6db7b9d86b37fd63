"""Yet more edits that keep the behaviour, each in other idioms (SPEC=tools/refactors3.py)."""
U, L, A = 'src/util.rs', 'src/lib.rs', 'src/ais/'
GROUPS = {}
# payload and bits
GROUPS['r10'] = [
 (U, '''    let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
    for c in payload.chars() {
        let mut ci = match c {
            '0'..='W' | '`'..='w' => (c as u8) - 48,
            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
        };
        if ci > 40 {
            ci -= 8;
        }

        // Pick bits
        for i in 0..6 {
            bv.push(((ci >> (5 - i)) & 0x01) != 0);
        }
    }
    
    Ok(bv)
''', '''    let values = payload.chars().map(six_bits).collect::<Result<Vec<u8>, String>>()?;
    Ok(values.iter()
             .flat_map(|v| (0..6).rev().map(move |i| v >> i & 1 == 1))
             .collect())
}

/// Value of a payload character.
fn six_bits(c: char) -> Result<u8, String> {
    let code = u32::from(c);
    if (0x30..=0x57).contains(&code) {
        Ok((code - 0x30) as u8)
    } else if (0x60..=0x77).contains(&code) {
        Ok((code - 0x38) as u8)
    } else {
        Err(format!("Invalid character in AIS payload: {}", c))
    }
'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
''', '''    let end = (index + len).min(bv.len());
    let start = index.min(end);
    let present = bv[start..end].iter().fold(0u64, |acc, bit| acc * 2 + if *bit { 1 } else { 0 });
    present << (len - (end - start))
'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }

    let sign_bit = 1 << (len - 1);
    if res & sign_bit != 0 {
        ((res & (sign_bit - 1)) as i64) - (sign_bit as i64)
    } else {
        res as i64
    }
''', '''    let shift = 64 - len as u32;
    (pick_u64(bv, index, len) << shift) as i64 >> shift
'''),
 (U, '''    let char_size = 6;
    let mut res = String::with_capacity(char_count);
    for i in 0 .. char_count {
        let ch = pick_u64(bv, index + i * char_size, char_size) as u32;
        assert!(ch < 64);
        if ch == 0 {
            break;
        } else if ch < 32 {
            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))
        } else {
            res.push(std::char::from_u32(ch).unwrap_or(' '))
        }
    }
    res.trim_end().to_string()
''', '''    let codes: Vec<u8> = (index..).step_by(6)
        .take(char_count)
        .map(|pos| pick_u64(bv, pos, 6) as u8)
        .take_while(|code| *code != 0)
        .map(|code| if code < 32 { code + b'@' } else { code })
        .collect();
    let text = String::from_utf8(codes).unwrap_or_default();
    text.trim_end_matches(' ').to_owned()
'''),
]
# checksum, sentence type, talkers, dispatch
GROUPS['r11'] = [
 (L, '''        let mut checksum = 0;
        let (sentence, checksum_hex_given) = { 
            if let Some(pos) = sentence.rfind('*') {
                (sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len()].to_string())
            } else {
                debug!("No checksum found for sentence: {}", sentence);
                (sentence.to_string(), "".to_string())
            }
        };
        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
        let checksum_hex_calculated = format!("{:02X?}", checksum);
        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {
            return Err(ParseError::CorruptedSentence(
                       format!("Corrupted NMEA sentence: {:02X?} != {:02X?}", 
                               checksum_hex_calculated, checksum_hex_given)));
        }
        
        // Pick sentence type
        let mut sentence_type: String = {
            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            }
        };
''', '''        let mut halves = sentence.rsplitn(2, '*');
        let tail = halves.next().unwrap_or_default();
        let (body, given) = match halves.next() {
            Some(body) => (body, Some(tail).filter(|t| !t.is_empty())),
            None => {
                debug!("No checksum found for sentence: {}", tail);
                (tail, None)
            }
        };
        let sentence = String::from(body);
        if let Some(given) = given {
            let calculated = match sentence.as_bytes().split_first() {
                Some((_, rest)) => rest.iter().copied().reduce(|a, b| a ^ b).unwrap_or(0),
                None => 0,
            };
            const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
            let expected = [DIGITS[usize::from(calculated >> 4)], DIGITS[usize::from(calculated & 15)]];
            if given.as_bytes() != &expected[..] {
                return Err(ParseError::CorruptedSentence(
                           format!("Corrupted NMEA sentence: {:02X} != {:?}", calculated, given)));
            }
        }

        // Pick sentence type
        let mut sentence_type: String = match sentence.split_once(',') {
            Some((head, _)) => head.to_owned(),
            None => {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            }
        };
'''),
 (L, '''        let nav_system = {
            if sentence_type.starts_with('$') {
                match sentence_type.get(1..3).unwrap_or("") {
                    "GN" => Some(gnss::NavigationSystem::Combination),
                    "GP" => Some(gnss::NavigationSystem::Gps),
                    "GL" => Some(gnss::NavigationSystem::Glonass),
                    "GA" => Some(gnss::NavigationSystem::Galileo),
                    "BD" => Some(gnss::NavigationSystem::Beidou),
                    "GI" => Some(gnss::NavigationSystem::Navic),
                    "QZ" => Some(gnss::NavigationSystem::Qzss),
                    _ => Some(gnss::NavigationSystem::Other),
                }
            } else {
                None
            }
        };
''', '''        let nav_system = match sentence_type.as_bytes() {
            [b'$', b'G', system, ..] => Some(match system {
                b'N' => gnss::NavigationSystem::Combination,
                b'P' => gnss::NavigationSystem::Gps,
                b'L' => gnss::NavigationSystem::Glonass,
                b'A' => gnss::NavigationSystem::Galileo,
                b'I' => gnss::NavigationSystem::Navic,
                _ => gnss::NavigationSystem::Other,
            }),
            [b'$', b'B', b'D', ..] => Some(gnss::NavigationSystem::Beidou),
            [b'$', b'Q', b'Z', ..] => Some(gnss::NavigationSystem::Qzss),
            [b'$', ..] => Some(gnss::NavigationSystem::Other),
            _ => None,
        };
'''),
 (L, '''        let station = {
            if sentence_type.starts_with('!') {
                match sentence_type.get(1..3).unwrap_or("") {
                    "AB" => Some(ais::Station::BaseStation),
                    "AD" => Some(ais::Station::DependentAisBaseStation),
                    "AI" => Some(ais::Station::MobileStation),
                    "AN" => Some(ais::Station::AidToNavigationStation),
                    "AR" => Some(ais::Station::AisReceivingStation),
                    "AS" => Some(ais::Station::LimitedBaseStation),
                    "AT" => Some(ais::Station::AisTransmittingStation),
                    "AX" => Some(ais::Station::RepeaterStation),
                    _ => Some(ais::Station::Other),
                }
            } else {
                None
            }
        };
''', '''        const STATIONS: [(&str, ais::Station); 8] = [
            ("AB", ais::Station::BaseStation),
            ("AD", ais::Station::DependentAisBaseStation),
            ("AI", ais::Station::MobileStation),
            ("AN", ais::Station::AidToNavigationStation),
            ("AR", ais::Station::AisReceivingStation),
            ("AS", ais::Station::LimitedBaseStation),
            ("AT", ais::Station::AisTransmittingStation),
            ("AX", ais::Station::RepeaterStation),
        ];
        let station = sentence_type.strip_prefix('!').map(|rest| {
            STATIONS.iter()
                    .find(|(talker, _)| rest.starts_with(talker))
                    .map_or(ais::Station::Other, |(_, station)| *station)
        });
'''),
]
# header of AIS sentences as a structure with FromStr; fragments with let-else and the entry interface
GROUPS['r12'] = [
 (L, '''                let own_vessel = sentence_type.as_str() == "!VDO";
                let mut num = 0;
                let mut fragment_count = 0;
                let mut fragment_number = 0;
                let mut message_id = None;
                let mut radio_channel_code = None;
                let mut payload_string: String = "".into();
                for s in sentence.split(",") {
                    match num {
                        1 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_count = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        2 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_number = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        3 => {
                            message_id = s.parse::<u64>().ok();
                        },
                        4 => {
                            // Radio channel code
                            radio_channel_code = Some(s);
                        },
                        5 => {
                            payload_string = s.to_string();
                        },
                        6 => {
                            // fill bits
                        },
                        _ => {
                        }
                    }
                    num += 1;
                }
''', '''                let own_vessel = sentence_type.ends_with('O');
                let header: AisHeader = sentence.parse()?;
                let AisHeader { fragment_count, fragment_number, message_id, channel, payload: payload_string } = header;
                let radio_channel_code = Some(channel.as_str());
'''),
 (L, '''/// Parser which keeps multi-sentence state''', '''/// The fields of an AIS sentence.
struct AisHeader {
    fragment_count: u8,
    fragment_number: u8,
    message_id: Option<u64>,
    channel: String,
    payload: String,
}

impl std::str::FromStr for AisHeader {
    type Err = ParseError;

    fn from_str(sentence: &str) -> Result<AisHeader, ParseError> {
        fn count(field: Option<&str>) -> Result<u8, ParseError> {
            let Some(s) = field else { return Ok(0) };
            s.parse().map_err(|_| ParseError::InvalidSentence(format!("Failed to parse fragment count: {}", s)))
        }
        let mut fields = sentence.split(',').skip(1);
        Ok(AisHeader {
            fragment_count:  count(fields.next())?,
            fragment_number: count(fields.next())?,
            message_id:      fields.next().and_then(|s| s.parse().ok()),
            channel:         fields.next().unwrap_or_default().to_owned(),
            payload:         fields.next().map(String::from).unwrap_or_default(),
        })
    }
}

/// Parser which keeps multi-sentence state'''),
 (L, '''                        if fragment_number == 1 {
                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }
                        } else if fragment_number == 2 {
                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key2.into(), payload_string);
                            }
                        } else {
                            warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);
                        }
''', '''                        let (own_key, other_key) = match fragment_number {
                            1 => (key1, key2),
                            2 => (key2, key1),
                            _ => {
                                warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);
                                return Ok(ParsedSentence::Incomplete);
                            }
                        };
                        let Some(other) = self.saved_fragments.remove(&other_key) else {
                            *self.saved_fragments.entry(own_key).or_default() = payload_string;
                            return Ok(ParsedSentence::Incomplete);
                        };
                        let parts = if fragment_number == 1 { [payload_string, other] } else { [other, payload_string] };
                        bv = Some(parse_payload(&parts.concat())?);
'''),
]
# GNSS: macros, generic helpers, iterators
GROUPS['r13'] = [
 (U, '''    let s = split.get(num).unwrap_or(&"");
    if *s != "" {
        match s.parse::<T>() {
            Ok(p)   => { Ok(Some(p)) }, 
            Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
        }
    } else {
        Ok(None)
    }
''', '''    split.get(num)
         .copied()
         .filter(|s| !s.is_empty())
         .map(|s| s.parse().map_err(|_| format!("Failed to parse field {}: {}", num, s)))
         .transpose()
'''),
 (U, '''    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
                    return Ok(time)
                }
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));
''', '''    let two = |i: usize| -> Option<u32> { hhmmss.get(i..i + 2)?.parse().ok() };
    let time = || -> Option<NaiveTime> { NaiveTime::from_hms_opt(two(0)?, two(2)?, two(4)?) };
    match time() {
        Some(time) => Ok(DateTime::<Utc>::from_utc(now.date().naive_utc().and_time(time), Utc)),
        None => Err(format!("Invalid time format: {}", hhmmss)),
    }
'''),
 (U, '''            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let val = d + m / 60.0;
            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))''', '''            let d: f64 = caps[1].parse().unwrap_or_default();
            let m: f64 = caps[2].parse().unwrap_or_default();
            let val = d + m / 60.0;
            Ok(Some(if hemisphere == "S" { -val } else { val }))'''),
 ('src/gnss/gsv.rs', '''    let mut found_count = 0;
    for i in 1..(msg_count + 1) {
        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            found_count += 1;
        }
    }

    if found_count == msg_count {
        let mut v = Vec::new();
        for i in 1..(msg_count + 1) {
            if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                let split: Vec<&str> = sentence.split(',').collect();
                for j in 0..4 {
                    if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None) {
                        v.push(GsvData{
                            source: nav_system,
                            prn_number: prn,
                            elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),
                            azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),
                            snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None),
                        });
                    }
                }
            }
        }
        
        return Ok(ParsedSentence::Gsv(v));
    } else {
        return Ok(ParsedSentence::Incomplete);
    }
''', '''    let keys: Vec<String> = (1..=msg_count).map(|i| make_gsv_key(msg_type, msg_count, i)).collect();
    if !keys.iter().all(|key| store.contains_key(key.clone())) {
        return Ok(ParsedSentence::Incomplete);
    }
    let mut satellites = Vec::new();
    for key in keys {
        let part = match store.pull_string(key) {
            Some(part) => part,
            None => continue,
        };
        let fields: Vec<&str> = part.split(',').skip(4).take(16).collect();
        satellites.extend(fields.chunks(4).filter_map(|block| {
            let number = |i: usize| block.get(i).filter(|s| !s.is_empty());
            Some(GsvData {
                source:     nav_system,
                prn_number: number(0)?.parse().ok()?,
                elevation:  number(1).and_then(|s| s.parse().ok()),
                azimuth:    number(2).and_then(|s| s.parse().ok()),
                snr:        number(3).and_then(|s| s.parse().ok()),
            })
        }));
    }
    Ok(ParsedSentence::Gsv(satellites))
'''),
 ('src/gnss/vtg.rs', '''    return Ok(ParsedSentence::Vtg(VtgData{
        source:            nav_system,
        cog_true:          pick_number_field(&split, 1).ok().unwrap_or(None),
        cog_magnetic:      pick_number_field(&split, 3).ok().unwrap_or(None),
        sog_knots:         pick_number_field(&split, 5).ok().unwrap_or(None),
        sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None),
        faa_mode:          FaaMode::new(split.get(9).unwrap_or(&"")).ok(),
    }));
''', '''    macro_rules! number {
        ($index:expr) => { pick_number_field(&split, $index).unwrap_or_default() };
    }
    Ok(ParsedSentence::Vtg(VtgData{
        source:            nav_system,
        cog_true:          number!(1),
        cog_magnetic:      number!(3),
        sog_knots:         number!(5),
        sog_kph:           number!(7),
        faa_mode:          split.get(9).and_then(|mode| FaaMode::new(mode).ok()),
    }))
'''),
 ('src/gnss/gsa.rs', '''            let mut v = Vec::with_capacity(12);
            for i in 3..15 {
                if split.get(i).unwrap_or(&"") != &"" {
                    if let Some(val) = pick_number_field(&split, i)? {
                        v.push(val);
                    }
                }
            }''', '''            let mut v = Vec::with_capacity(12);
            let mut i = 3;
            while i < 15 {
                v.extend(pick_number_field::<u8>(&split, i)?);
                i += 1;
            }'''),
 ('src/gnss/mod.rs', '''        match val {
            "A" => Ok(FaaMode::Autonomous),
            "D" => Ok(FaaMode::Differential),
            "E" => Ok(FaaMode::Estimated),
            "N" => Ok(FaaMode::NotValid),
            "S" => Ok(FaaMode::Simulator),
            _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
        }
''', '''        use std::convert::TryFrom;
        FaaMode::try_from(val)
    }
}

impl<'a> std::convert::TryFrom<&'a str> for FaaMode {
    type Error = String;

    fn try_from(val: &'a str) -> Result<FaaMode, String> {
        let mut chars = val.chars();
        match (chars.next(), chars.next()) {
            (Some('A'), None) => Ok(FaaMode::Autonomous),
            (Some('D'), None) => Ok(FaaMode::Differential),
            (Some('E'), None) => Ok(FaaMode::Estimated),
            (Some('N'), None) => Ok(FaaMode::NotValid),
            (Some('S'), None) => Ok(FaaMode::Simulator),
            _ => Err(format!("Unrecognized FAA information value: {}", val)),
        }
'''),
]
# field decoders of AIS messages
GROUPS['r14'] = [
 (A + 'vdm_t1t2t3.rs', '''            let raw = pick_i64(&bv, 42, 8);
            if -126 <= raw && raw < 0 {
                Some(-((-raw as f64) / 4.733).powi(2))
            } else if 0 <= raw && raw <= 126 {
                Some(((raw as f64) / 4.733).powi(2))
            } else {
                None
            }
''', '''            match pick_i64(&bv, 42, 8) {
                raw @ -126..=126 => {
                    let root = raw.abs() as f64 / 4.733;
                    Some(if raw < 0 { -(root * root) } else { root * root })
                },
                _ => None,
            }
'''),
 (A + 'vdm_t1t2t3.rs', '''            let raw = pick_i64(&bv, 42, 8);
            if raw == -128 {
                None
            } else if raw <= -2 {
                Some(-1)
            } else if raw < 2 {
                Some(0)
            } else if raw < 128 {
                Some(1)
            } else {
                None
            }
''', '''            let raw = pick_i64(&bv, 42, 8) as i8;
            if raw == i8::MIN {
                None
            } else if (raw as i16).abs() < 2 {
                Some(0)
            } else {
                Some(raw.signum())
            }
'''),
 (A + 'vdm_t1t2t3.rs', '''            let raw = pick_u64(&bv, 50, 10);
            if raw < 1023 {
                Some((raw as f64) * 0.1)
            } else {
                None
            }
''', '''            scaled(pick_u64(&bv, 50, 10), 1023, 0.1)
'''),
 (A + 'vdm_t1t2t3.rs', '''            let cog_raw = pick_u64(&bv, 116, 12);
            if cog_raw != 0xE10 {
                Some(cog_raw as f64 * 0.1)
            } else {
                None
            }
''', '''            scaled(pick_u64(&bv, 116, 12), 0xE10, 0.1)
'''),
 (A + 'vdm_t1t2t3.rs', '''            let th_raw = pick_u64(&bv, 128, 9);
            if th_raw != 511 {
                Some(th_raw as f64)
            } else {
                None
            }
''', '''            scaled(pick_u64(&bv, 128, 9), 511, 1.0)
'''),
 (A + 'vdm_t1t2t3.rs', '''            let lat_raw = pick_i64(&bv, 89, 27) as i32;
            if lat_raw != 0x3412140 {
                Some((lat_raw as f64) / 600000.0) 
            } else {
                None
            }
''', '''            Some(pick_i64(&bv, 89, 27)).filter(|raw| *raw != 91 * 600_000).map(minutes)
'''),
 (A + 'vdm_t1t2t3.rs', '''            let lon_raw = pick_i64(&bv, 61, 28) as i32;
            if lon_raw != 0x6791AC0 {
                Some((lon_raw as f64) / 600000.0)
            } else {
                None
            }
''', '''            Some(pick_i64(&bv, 61, 28)).filter(|raw| *raw != 181 * 600_000).map(minutes)
'''),
 (A + 'vdm_t1t2t3.rs', '''            match raw {
                0 => { None },
                1 => { Some(false) },
                2 => { Some(true) },
                _ => {
                    warn!("Unrecognized Maneuver Indicator value: {}", raw);
                    None
                }
            }
''', '''            if raw > 2 {
                warn!("Unrecognized Maneuver Indicator value: {}", raw);
            }
            matches!(raw, 1 | 2).then(|| raw == 2)
'''),
 (A + 'vdm_t1t2t3.rs', '''// -------------------------------------------------------------------------------------------------

#[cfg(test)]
mod test {''', '''/// Scaled number unless it has the value for "not available".
fn scaled<T>(raw: T, not_available: T, factor: f64) -> Option<f64>
where T: PartialEq + std::convert::TryInto<u32> {
    if raw == not_available {
        return None;
    }
    raw.try_into().ok().map(|raw| f64::from(raw) * factor)
}

/// Degrees of 1/10000 minutes.
fn minutes(raw: i64) -> f64 {
    const PER_DEGREE: f64 = 60.0 * 10_000.0;
    raw as f64 / PER_DEGREE
}

// -------------------------------------------------------------------------------------------------

#[cfg(test)]
mod test {'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_u64(&bv, 40, 30) as u32;
            match raw { 0 => { None }, _ => { Some(raw) } }
''', '''            std::num::NonZeroU32::new(pick_u64(&bv, 40, 30) as u32).map(|n| n.get())
'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_string(&bv, 70, 7);
            match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
''', '''            text(bv, 70, 7)
'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_string(&bv, 112, 20);
            match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
''', '''            text(bv, 112, 20)
'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_string(&bv, 302, 20);
            match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
''', '''            text(bv, 302, 20)
'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_u64(&bv, 270, 4) as u8;
            match raw {
                0 => { None },
                _ => { Some(PositionFixType::new(raw)) },
            }
''', '''            Some(pick_u64(&bv, 270, 4) as u8).filter(|raw| *raw > 0).map(PositionFixType::new)
'''),
 (A + 'vdm_t5.rs', '''        equipment_vendor_id: { 
            None // part of AIS class B
        },
        equipment_model: { 
            None // part of AIS class B
        },
        equipment_serial_number: {
            None // part of AIS class B
        },
''', ''),
 (A + 'vdm_t5.rs', '''        mothership_mmsi: {
            None
        }
    }));
}
''', '''        ..Default::default()
    }));
}

/// A text unless it is empty.
fn text(bv: &BitVec, index: usize, len: usize) -> Option<String> {
    let text = pick_string(bv, index, len);
    if text.is_empty() { None } else { Some(text) }
}
'''),
]
# class B parts
GROUPS['r15'] = [
 (A + 'vdm_t24.rs', '''    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
        // Vendor ID is present in part B only: similar parts do not complete each other
        if vsd.equipment_vendor_id.is_some() != vsd2.equipment_vendor_id.is_some() {
            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));
        }
    }
    store.push_vsd(vsd.mmsi, vsd);
    Ok(ParsedSentence::Incomplete)
''', '''    use std::collections::hash_map::Entry;
    match store.saved_vsds.entry(vsd.mmsi) {
        // Vendor ID is present in part B only: similar parts do not complete each other
        Entry::Occupied(waiting) if waiting.get().equipment_vendor_id.is_some() != vsd.equipment_vendor_id.is_some() => {
            let other = waiting.remove();
            let whole = vsd.merge(&other)?;
            Ok(ParsedSentence::VesselStaticData(whole))
        },
        Entry::Occupied(mut waiting) => {
            waiting.insert(vsd);
            Ok(ParsedSentence::Incomplete)
        },
        Entry::Vacant(place) => {
            place.insert(vsd);
            Ok(ParsedSentence::Incomplete)
        },
    }
'''),
 (A + 'vdm_t24.rs', '''    let (part_a, part_b) = match pick_u64(&bv, 38, 2) {
        0 => { (true, false) },
        1 => { (false, true) },
        _ => {
            return Err(format!("AIVDM type 24 part number has unexpected value: {}", 
                               pick_u64(&bv, 38, 2)).into());
        }
    };
''', '''    let part = pick_u64(&bv, 38, 2);
    if part > 1 {
        return Err(ParseError::InvalidSentence(format!("AIVDM type 24 part number has unexpected value: {}", part)));
    }
    let part_b = part == 1;
    let part_a = !part_b;
'''),
 (A + 'vdm_t24.rs', '''            if part_b {
                Some(pick_u64(&bv, 132, 9) as u16)
            } else {
                None
            }
''', '''            part_b.then(|| pick_u64(&bv, 132, 9) as u16)
'''),
 (A + 'vdm_t24.rs', '''            if part_b {
                let raw = pick_string(&bv, 90, 7);
                match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
            } else {
                None
            }
''', '''            Some(pick_string(&bv, 90, 7)).filter(|s| part_b && !s.is_empty())
'''),
]
