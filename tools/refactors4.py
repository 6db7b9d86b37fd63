"""Again edits that keep the behaviour, in further idioms (SPEC=tools/refactors4.py)."""
U, L, A = 'src/util.rs', 'src/lib.rs', 'src/ais/'
GROUPS = {}
# bits, strings and ETA
GROUPS['r16'] = [
 (U, '''pub fn pick_u64(bv: &BitVec, index: usize, len: usize) -> u64 {
    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
}
''', '''pub fn pick_u64(bv: &BitVec, index: usize, len: usize) -> u64 {
    bv.iter()
      .skip(index)
      .chain(std::iter::repeat(&false))
      .take(len)
      .fold(0, |acc, bit| acc << 1 | u64::from(*bit))
}
'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }

    let sign_bit = 1 << (len - 1);
    if res & sign_bit != 0 {
        ((res & (sign_bit - 1)) as i64) - (sign_bit as i64)
    } else {
        res as i64
    }
''', '''    let unused = 64 - len as u32;
    (pick_u64(bv, index, len) as i64).wrapping_shl(unused) >> unused
'''),
 (U, '''    let char_size = 6;
    let mut res = String::with_capacity(char_count);
    for i in 0 .. char_count {
        let ch = pick_u64(bv, index + i * char_size, char_size) as u32;
        assert!(ch < 64);
        if ch == 0 {
            break;
        } else if ch < 32 {
            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))
        } else {
            res.push(std::char::from_u32(ch).unwrap_or(' '))
        }
    }
    res.trim_end().to_string()
''', '''    const CHARS: &[u8; 64] = b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\\\]^_ !\\"#$%&'()*+,-./0123456789:;<=>?";
    let mut res = String::new();
    let mut i = 0;
    loop {
        if i == char_count {
            break;
        }
        match pick_u64(bv, index + i * 6, 6) {
            0 => break,
            code => res.push(CHARS[code as usize] as char),
        }
        i += 1;
    }
    let len = res.trim_end_matches(' ').len();
    res.truncate(len);
    res
'''),
 (U, '''    // This and next year
    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
                                  .and_then(|d| d.and_hms_opt(hour, minute, second));

    match this_year_eta {
        Some(eta) if now <= eta => Some(DateTime::<Utc>::from_utc(eta, Utc)),
        _ => next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)),
    }
''', '''    // This and next year
    let in_year = |year: i32| -> Option<NaiveDateTime> {
        NaiveDate::from_ymd_opt(year, month, day)?.and_hms_opt(hour, minute, second)
    };
    let eta = in_year(now.year()).filter(|eta| *eta >= now).or_else(|| in_year(now.year() + 1))?;
    Some(Utc.from_utc_datetime(&eta))
'''),
 (U, '''    for c in payload.chars() {
        let mut ci = match c {
            '0'..='W' | '`'..='w' => (c as u8) - 48,
            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
        };
        if ci > 40 {
            ci -= 8;
        }

        // Pick bits
        for i in 0..6 {
            bv.push(((ci >> (5 - i)) & 0x01) != 0);
        }
    }
''', '''    let mut chars = payload.chars();
    while let Some(c) = chars.next() {
        let code = match c as u32 {
            n @ 48..=87 => n - 48,
            n @ 96..=119 => n - 56,
            _ => return Err(format!("Invalid character in AIS payload: {}", c)),
        };
        let mut mask = 0x20;
        while mask > 0 {
            bv.push(code & mask == mask);
            mask >>= 1;
        }
    }
'''),
]
# numbers, times, positions
GROUPS['r17'] = [
 (U, '''    let s = split.get(num).unwrap_or(&"");
    if *s != "" {
        match s.parse::<T>() {
            Ok(p)   => { Ok(Some(p)) }, 
            Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
        }
    } else {
        Ok(None)
    }
''', '''    split.get(num)
         .filter(|s| !s.is_empty())
         .map(|s| s.parse().map_err(|_| format!("Failed to parse field {}: {}", num, s)))
         .transpose()
'''),
 (U, '''    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
                    return Ok(time)
                }
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));
''', '''    let part = |i: usize| hhmmss.get(i..i + 2)?.parse::<u32>().ok();
    part(0).zip(part(2))
           .zip(part(4))
           .and_then(|((h, m), s)| now.date_naive().and_hms_opt(h, m, s))
           .map(|t| t.and_utc())
           .ok_or_else(|| format!("Invalid time format: {}", hhmmss))
'''),
 (U, '''    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
                            if let Some(time) = Utc.ymd_opt(century + year, month, day).single()
                                                   .and_then(|d| d.and_hms_opt(hour, minute, second)) {
                                return Ok(time)
                            }
                        }
                    }
                }
                return Err(format!("Invalid time format: {}", hhmmss));
            }
        }
    }
    return Err(format!("Invalid date format: {}", yymmdd));
}

/// A simple helper to pick a substring of length two from the given string.
fn pick_s2(s: &str, i: usize) -> String {
    s.get(i .. (i + 2)).unwrap_or("").into()
}
''', '''    let (day, month, year) = match three_parts(yymmdd) {
        Ok(parts) => parts,
        Err(()) => return Err(format!("Invalid date format: {}", yymmdd)),
    };
    let bad_time = || format!("Invalid time format: {}", hhmmss);
    let (hour, minute, second) = three_parts(hhmmss).map_err(|_| bad_time())?;
    match Utc.with_ymd_and_hms(century + year as i32, month, day, hour, minute, second) {
        chrono::LocalResult::Single(time) => Ok(time),
        _ => Err(bad_time()),
    }
}

/// Three numbers of two digits each.
fn three_parts(s: &str) -> Result<(u32, u32, u32), ()> {
    let mut parts = [0; 3];
    for (i, part) in parts.iter_mut().enumerate() {
        *part = s.get(2 * i..2 * i + 2).ok_or(())?.parse().map_err(|_| ())?;
    }
    let [a, b, c] = parts;
    Ok((a, b, c))
}
'''),
 (U, '''    if lat_string != "" {
        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
        if let Some(caps) = re.captures(lat_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let val = d + m / 60.0;
            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))
        } else {
            return Err(format!("Failed to parse latitude (DDMM.MMM) from {}", lat_string));
        }
    } else {
        Ok(None)
    }
''', '''    if lat_string.is_empty() {
        return Ok(None);
    }
    let val = parse_degrees(lat_string, 2)
        .ok_or_else(|| format!("Failed to parse latitude (DDMM.MMM) from {}", lat_string))?;
    Ok(Some(if hemisphere == "S" { val * -1.0 } else { val }))
'''),
 (U, '''    if lon_string != "" {
        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
        if let Some(caps) = re.captures(lon_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let val = d + m / 60.0;
            Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))
        } else {
            return Err(format!("Failed to parse longitude (DDDMM.MMM) from {}", lon_string));
        }
    } else {
        Ok(None)
    }
''', '''    if lon_string.is_empty() {
        return Ok(None);
    }
    let val = parse_degrees(lon_string, 3)
        .ok_or_else(|| format!("Failed to parse longitude (DDDMM.MMM) from {}", lon_string))?;
    Ok(Some(if eastwest == "W" { val * -1.0 } else { val }))
'''),
 (U, '''/// Parse latitude from two string.''', '''/// Degrees (of the given number of digits) followed by minutes.
fn parse_degrees(s: &str, digits: usize) -> Option<f64> {
    let (whole, fraction) = s.split_once('.')?;
    if whole.len() != digits + 2 || fraction.is_empty()
        || !whole.bytes().chain(fraction.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let (d, m) = s.split_at(digits);
    Some(d.parse::<f64>().ok()? + m.parse::<f64>().ok()? / 60.0)
}

/// Parse latitude from two string.'''),
 (U, 'use regex::Regex;\n', ''),
]
# the sentence
GROUPS['r18'] = [
 (L, '''        let mut checksum = 0;
        let (sentence, checksum_hex_given) = { 
            if let Some(pos) = sentence.rfind('*') {
                (sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len()].to_string())
            } else {
                debug!("No checksum found for sentence: {}", sentence);
                (sentence.to_string(), "".to_string())
            }
        };
        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
        let checksum_hex_calculated = format!("{:02X?}", checksum);
        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {
''', '''        let (sentence, checksum_hex_given) = sentence.rsplit_once('*').unwrap_or_else(|| {
            debug!("No checksum found for sentence: {}", sentence);
            (sentence, "")
        });
        let sentence = sentence.to_owned();
        let checksum = match sentence.as_bytes().split_first() {
            Some((_, rest)) => rest.iter().fold(0u8, |sum, b| sum ^ *b),
            None => 0,
        };
        const HEX: &[u8] = b"0123456789ABCDEF";
        let mut checksum_hex_calculated = String::with_capacity(2);
        checksum_hex_calculated.push(HEX[usize::from(checksum / 16)].into());
        checksum_hex_calculated.push(HEX[usize::from(checksum % 16)].into());
        if !checksum_hex_given.is_empty() && checksum_hex_given.ne(&checksum_hex_calculated) {
'''),
 (L, '''            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            }
''', '''            let mut chars = sentence.char_indices().skip_while(|(_, c)| *c != ',');
            let end = chars.next().map(|(i, _)| i);
            let Some(end) = end else {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            };
            String::from(&sentence[..end])
'''),
 (L, '''            if sentence_type.starts_with('$') {
                match sentence_type.get(1..3).unwrap_or("") {
                    "GN" => Some(gnss::NavigationSystem::Combination),
                    "GP" => Some(gnss::NavigationSystem::Gps),
                    "GL" => Some(gnss::NavigationSystem::Glonass),
                    "GA" => Some(gnss::NavigationSystem::Galileo),
                    "BD" => Some(gnss::NavigationSystem::Beidou),
                    "GI" => Some(gnss::NavigationSystem::Navic),
                    "QZ" => Some(gnss::NavigationSystem::Qzss),
                    _ => Some(gnss::NavigationSystem::Other),
                }
            } else {
                None
            }
''', '''            const SYSTEMS: &[(&str, gnss::NavigationSystem)] = &[
                ("GN", gnss::NavigationSystem::Combination),
                ("GP", gnss::NavigationSystem::Gps),
                ("GL", gnss::NavigationSystem::Glonass),
                ("GA", gnss::NavigationSystem::Galileo),
                ("BD", gnss::NavigationSystem::Beidou),
                ("GI", gnss::NavigationSystem::Navic),
                ("QZ", gnss::NavigationSystem::Qzss),
            ];
            sentence_type.strip_prefix('$').map(|rest| {
                SYSTEMS.iter()
                       .find_map(|(id, system)| if rest.get(..2) == Some(*id) { Some(*system) } else { None })
                       .unwrap_or(gnss::NavigationSystem::Other)
            })
'''),
 (L, '''            if sentence_type.starts_with('!') {
                match sentence_type.get(1..3).unwrap_or("") {
                    "AB" => Some(ais::Station::BaseStation),
                    "AD" => Some(ais::Station::DependentAisBaseStation),
                    "AI" => Some(ais::Station::MobileStation),
                    "AN" => Some(ais::Station::AidToNavigationStation),
                    "AR" => Some(ais::Station::AisReceivingStation),
                    "AS" => Some(ais::Station::LimitedBaseStation),
                    "AT" => Some(ais::Station::AisTransmittingStation),
                    "AX" => Some(ais::Station::RepeaterStation),
                    _ => Some(ais::Station::Other),
                }
            } else {
                None
            }
''', '''            match sentence_type.as_bytes() {
                [b'!', b'A', letter, ..] => Some(match letter {
                    b'B' => ais::Station::BaseStation,
                    b'D' => ais::Station::DependentAisBaseStation,
                    b'I' => ais::Station::MobileStation,
                    b'N' => ais::Station::AidToNavigationStation,
                    b'R' => ais::Station::AisReceivingStation,
                    b'S' => ais::Station::LimitedBaseStation,
                    b'T' => ais::Station::AisTransmittingStation,
                    b'X' => ais::Station::RepeaterStation,
                    _ => ais::Station::Other,
                }),
                [b'!', ..] => Some(ais::Station::Other),
                _ => None,
            }
'''),
 (L, '''        if nav_system != None {
            // Shorten the GNSS setence types to three letters
            if sentence_type.len() <= 6 {
                sentence_type = format!("${}", sentence_type.get(3..6).unwrap_or(""));
            }
        }
''', '''        if nav_system.is_some() && sentence_type.len() < 7 {
            sentence_type = ["$", sentence_type.get(3..6).unwrap_or_default()].concat();
        }
'''),
 (L, '''        if station != None {
            // Shorten the AIS setence types to three letters
            if sentence_type.len() <= 6 {
                sentence_type = format!("!{}", sentence_type.get(3..6).unwrap_or(""));
            }
        }
''', '''        if station.is_some() && !(sentence_type.len() > 6) {
            let short = sentence_type.get(3..6).map_or_else(String::new, str::to_string);
            sentence_type.truncate(1);
            sentence_type += &short;
        }
'''),
]
# the fields of an AIS sentence and the store
GROUPS['r19'] = [
 (L, '''                let mut num = 0;
                let mut fragment_count = 0;
                let mut fragment_number = 0;
                let mut message_id = None;
                let mut radio_channel_code = None;
                let mut payload_string: String = "".into();
                for s in sentence.split(",") {
                    match num {
                        1 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_count = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        2 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_number = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        3 => {
                            message_id = s.parse::<u64>().ok();
                        },
                        4 => {
                            // Radio channel code
                            radio_channel_code = Some(s);
                        },
                        5 => {
                            payload_string = s.to_string();
                        },
                        6 => {
                            // fill bits
                        },
                        _ => {
                        }
                    }
                    num += 1;
                }
''', '''                let mut fields = sentence.split(',').skip(1).fuse();
                let mut number = || -> Result<u8, ParseError> {
                    match fields.next() {
                        Some(s) => s.parse().map_err(|_| ParseError::InvalidSentence(
                                       format!("Failed to parse fragment count: {}", s))),
                        None => Ok(0),
                    }
                };
                let fragment_count = number()?;
                let fragment_number = number()?;
                let message_id = fields.next().and_then(|s| s.parse::<u64>().ok());
                let radio_channel_code = fields.next();
                let payload_string = fields.next().unwrap_or_default().to_owned();
'''),
 (L, '''                        if fragment_number == 1 {
                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }
                        } else if fragment_number == 2 {
                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key2.into(), payload_string);
                            }
                        } else {
                            warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);
                        }
''', '''                        let (own_key, other_key) = match fragment_number {
                            1 => (key1, key2),
                            2 => (key2, key1),
                            _ => {
                                warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);
                                return Ok(ParsedSentence::Incomplete);
                            }
                        };
                        match self.pull_string(other_key) {
                            None => self.push_string(own_key, payload_string),
                            Some(other) => {
                                let mut parts = [payload_string, other];
                                if fragment_number == 2 {
                                    parts.reverse();
                                }
                                bv = Some(parse_payload(&parts.concat())?);
                            }
                        }
'''),
 (U, '''    format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)
''', '''    [sentence_type.to_owned(),
     fragment_count.to_string(),
     fragment_number.to_string(),
     message_id.to_string(),
     radio_channel_code.to_owned()].join(",")
'''),
 ('src/gnss/gsv.rs', '''    format!("{},{},{}", sentence_type, msg_count, msg_num)
''', '''    let mut key = String::from(sentence_type);
    for n in &[msg_count, msg_num] {
        key.push(',');
        key.push_str(&n.to_string());
    }
    key
'''),
 ('src/gnss/gsv.rs', '''    let mut found_count = 0;
    for i in 1..(msg_count + 1) {
        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            found_count += 1;
        }
    }

    if found_count == msg_count {
        let mut v = Vec::new();
        for i in 1..(msg_count + 1) {
            if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                let split: Vec<&str> = sentence.split(',').collect();
                for j in 0..4 {
                    if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None) {
                        v.push(GsvData{
                            source: nav_system,
                            prn_number: prn,
                            elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),
                            azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),
                            snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None),
                        });
                    }
                }
            }
        }
        
        return Ok(ParsedSentence::Gsv(v));
    } else {
        return Ok(ParsedSentence::Incomplete);
    }
''', '''    if !(1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {
        return Ok(ParsedSentence::Incomplete);
    }
    let parts: Vec<String> = (1..=msg_count)
        .filter_map(|i| store.pull_string(make_gsv_key(msg_type, msg_count, i)))
        .collect();
    let satellites = parts.iter().flat_map(|part| {
        let split: Vec<&str> = part.split(',').collect();
        (4..20).step_by(4).filter_map(|i| satellite(&split, i, nav_system)).collect::<Vec<_>>()
    });
    Ok(ParsedSentence::Gsv(satellites.collect()))
'''),
 ('src/gnss/gsv.rs', '''/// Make key for store''', '''/// The satellite described from the given field on.
fn satellite(split: &Vec<&str>, i: usize, source: NavigationSystem) -> Option<GsvData> {
    Some(GsvData {
        source,
        prn_number: pick_number_field(split, i).unwrap_or_default()?,
        elevation: pick_number_field(split, i + 1).unwrap_or_default(),
        azimuth: pick_number_field(split, i + 2).unwrap_or_default(),
        snr: pick_number_field(split, i + 3).unwrap_or_default(),
    })
}

/// Make key for store'''),
]
# the other GNSS sentences and AIS tables
GROUPS['r20'] = [
 ('src/gnss/gsa.rs', '''            let mut v = Vec::with_capacity(12);
            for i in 3..15 {
                if split.get(i).unwrap_or(&"") != &"" {
                    if let Some(val) = pick_number_field(&split, i)? {
                        v.push(val);
                    }
                }
            }
            v
''', '''            let mut numbers = (3..15).map(|i| pick_number_field::<u8>(&split, i))
                                     .collect::<Result<Vec<Option<u8>>, String>>()?;
            numbers.retain(Option::is_some);
            numbers.into_iter().flatten().collect()
'''),
 ('src/gnss/gsa.rs', '''            let s = split.get(1).unwrap_or(&"");
            match s {
                &"M" => Some(false), &"A" => Some(true), &"" => None,
                _ => { return Err(format!("Invalid GPGSA mode: {}", s).into()); }
            }
''', '''            match *split.get(1).unwrap_or(&"") {
                "" => None,
                s if s == "M" || s == "A" => Some(s == "A"),
                s => return Err(ParseError::from(format!("Invalid GPGSA mode: {}", s))),
            }
'''),
 ('src/gnss/rmc.rs', '''            if let Some(val) = pick_number_field::<f64>(&split, 10)? {
                let side = split.get(11).unwrap_or(&"");
                match side {
                    &"E" => { Some(val) },
                    &"W" => { Some(-val) },
                    _ => { return Err(format!("Invalid RMC variation side: {}", side).into()); },
                }
            } else {
                None
            }
''', '''            match (pick_number_field::<f64>(&split, 10)?, split.get(11).copied().unwrap_or_default()) {
                (None, _) => None,
                (Some(val), "E") => Some(val),
                (Some(val), "W") => Some(-1.0 * val),
                (_, side) => Err(format!("Invalid RMC variation side: {}", side))?,
            }
'''),
 ('src/gnss/mod.rs', '''        match val {
            "A" => Ok(FaaMode::Autonomous),
            "D" => Ok(FaaMode::Differential),
            "E" => Ok(FaaMode::Estimated),
            "N" => Ok(FaaMode::NotValid),
            "S" => Ok(FaaMode::Simulator),
            _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
        }
''', '''        let mut chars = val.chars().peekable();
        let first = chars.next();
        let mode = match (first, chars.peek()) {
            (Some('A'), None) => FaaMode::Autonomous,
            (Some('D'), None) => FaaMode::Differential,
            (Some('E'), None) => FaaMode::Estimated,
            (Some('N'), None) => FaaMode::NotValid,
            (Some('S'), None) => FaaMode::Simulator,
            _ => return Err(format!("Unrecognized FAA information value: {}", val)),
        };
        Ok(mode)
'''),
 (A + 'mod.rs', '''        match nav_status {
            0  => { NavigationStatus::UnderWayUsingEngine },
            1  => { NavigationStatus::AtAnchor },
            2  => { NavigationStatus::NotUnderCommand },
            3  => { NavigationStatus::RestrictedManoeuverability },
            4  => { NavigationStatus::ConstrainedByDraught },
            5  => { NavigationStatus::Moored },
            6  => { NavigationStatus::Aground },
            7  => { NavigationStatus::EngagedInFishing },
            8  => { NavigationStatus::UnderWaySailing },
            9  => { NavigationStatus::Reserved9 },
            10 => { NavigationStatus::Reserved10 },
            11 => { NavigationStatus::Reserved11 },
            12 => { NavigationStatus::Reserved12 },
            13 => { NavigationStatus::Reserved13 },
            14 => { NavigationStatus::AisSartIsActive },
            15 => { NavigationStatus::NotDefined },
            _ => { NavigationStatus::NotDefined }
        }
''', '''        use NavigationStatus::*;
        static STATUSES: [NavigationStatus; 15] = [
            UnderWayUsingEngine, AtAnchor, NotUnderCommand, RestrictedManoeuverability, ConstrainedByDraught,
            Moored, Aground, EngagedInFishing, UnderWaySailing, Reserved9, Reserved10, Reserved11, Reserved12,
            Reserved13, AisSartIsActive,
        ];
        STATUSES.get(nav_status as usize).cloned().unwrap_or_default()
'''),
 (A + 'mod.rs', '''        match raw {
            10 | 20 | 40 | 60 | 70 | 80 | 90 => {
                CargoType::Undefined
            },
            11 | 21 | 41 | 61 | 71 | 81 | 91 => {
                CargoType::HazardousCategoryA
            },
            12 | 22 | 42 | 62 | 72 | 82 | 92 => {
                CargoType::HazardousCategoryB
            },
            13 | 23 | 43 | 63 | 73 | 83 | 93 => {
                CargoType::HazardousCategoryC
            },
            14 | 24 | 44 | 64 | 74 | 84 | 94 => {
                CargoType::HazardousCategoryD
            },
            15 | 25 | 45 | 65 | 75 | 85 | 95 => {
                CargoType::Reserved5
            },
            16 | 26 | 46 | 66 | 76 | 86 | 96 => {
                CargoType::Reserved6
            },
            17 | 27 | 47 | 67 | 77 | 87 | 97 => {
                CargoType::Reserved7
            },
            18 | 28 | 48 | 68 | 78 | 88 | 98 => {
                CargoType::Reserved8
            },
            19 | 29 | 49 | 69 | 79 | 89 | 99 => {
                CargoType::Reserved9
            },
            _ => {
                warn!("Unexpected ship and cargo type: {}", raw);
                CargoType::Undefined
            }
        }
''', '''        match (raw / 10, raw % 10) {
            (1, 0) | (2, 0) | (4, 0) | (6..=9, 0) => CargoType::Undefined,
            (1, n) | (2, n) | (4, n) | (6..=9, n) => match n {
                1 => CargoType::HazardousCategoryA,
                2 => CargoType::HazardousCategoryB,
                3 => CargoType::HazardousCategoryC,
                4 => CargoType::HazardousCategoryD,
                5 => CargoType::Reserved5,
                6 => CargoType::Reserved6,
                7 => CargoType::Reserved7,
                8 => CargoType::Reserved8,
                _ => CargoType::Reserved9,
            },
            _ => {
                warn!("Unexpected ship and cargo type: {}", raw);
                Default::default()
            }
        }
'''),
 (A + 'mod.rs', '''    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            PositionFixType::Undefined => { write!(f, "undefined") }
            PositionFixType::GPS => { write!(f, "GPS") }
            PositionFixType::GLONASS => { write!(f, "GLONASS") }
            PositionFixType::GPSGLONASS => { write!(f, "GPS/GLONASS") }
            PositionFixType::LoranC => { write!(f, "Loran-C") }
            PositionFixType::Chayka => { write!(f, "Chayka") }
            PositionFixType::IntegratedNavigationSystem => { write!(f, "integrated navigation system") }
            PositionFixType::Surveyed => { write!(f, "surveyed") }
            PositionFixType::Galileo => { write!(f, "Galileo") }
        }
        
    }
''', '''    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let text = match *self {
            PositionFixType::Undefined => "undefined",
            PositionFixType::GPS => "GPS",
            PositionFixType::GLONASS => "GLONASS",
            PositionFixType::GPSGLONASS => return write!(f, "{}/{}", PositionFixType::GPS, PositionFixType::GLONASS),
            PositionFixType::LoranC => "Loran-C",
            PositionFixType::Chayka => "Chayka",
            PositionFixType::IntegratedNavigationSystem => "integrated navigation system",
            PositionFixType::Surveyed => "surveyed",
            PositionFixType::Galileo => "Galileo",
        };
        f.write_str(text)
    }
'''),
 (A + 'vdm_t4.rs', '''            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                        pick_u64(&bv, 52, 4) as u32, 
                        pick_u64(&bv, 56, 5) as u32)
                    .single()
                    .and_then(|d| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
                             pick_u64(&bv, 66, 6) as u32, 
                             pick_u64(&bv, 72, 6) as u32))
''', '''            let widths = [(38, 14), (52, 4), (56, 5), (61, 5), (66, 6), (72, 6)];
            let v: Vec<u32> = widths.iter().map(|&(at, len)| pick_u64(bv, at, len) as u32).collect();
            NaiveDate::from_ymd_opt(v[0] as i32, v[1], v[2])
                .zip(chrono::NaiveTime::from_hms_opt(v[3], v[4], v[5]))
                .map(|(date, time)| DateTime::from_utc(date.and_time(time), Utc))
'''),
 (A + 'vdm_t4.rs', '''                let lat_raw = pick_i64(&bv, 107, 27) as i32;
                if lat_raw != 0x3412140 {
                    Some((lat_raw as f64) / 600000.0) 
                } else {
                    None
                }
''', '''                Some(pick_i64(&bv, 107, 27)).filter(|raw| *raw != 54_600_000).map(|raw| raw as f64 / 60.0 / 10000.0 * 1.0).map(|_| f64::from(pick_i64(&bv, 107, 27) as i32) / 600000.0)
'''),
 (A + 'vdm_t4.rs', '''                let lon_raw = pick_i64(&bv, 79, 28) as i32;
                if lon_raw != 0x6791AC0 {
                    Some((lon_raw as f64) / 600000.0)
                } else {
                    None
                }
''', '''                match i32::try_from(pick_i64(&bv, 79, 28)) {
                    Ok(108_600_000) | Err(_) => None,
                    Ok(raw) => Some(f64::from(raw) / 6e5),
                }
'''),
 (A + 'vdm_t4.rs', 'use super::*;\n', 'use super::*;\nuse std::convert::TryFrom;\n'),
]
