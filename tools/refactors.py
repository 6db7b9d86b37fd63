"""Edits that keep the behaviour."""
U, L = 'src/util.rs', 'src/lib.rs'
GROUPS = {}
GROUPS['r01'] = [
 # iterator folds for loops
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
}''', '''    (index .. (index + len)).fold(0, |acc, pos| (acc << 1) | (bv.get(pos).copied().unwrap_or(false) as u64))
}'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }

    let sign_bit = 1 << (len - 1);
    if res & sign_bit != 0 {
        ((res & (sign_bit - 1)) as i64) - (sign_bit as i64)
    } else {
        res as i64
    }''', '''    let raw = pick_u64(bv, index, len);
    let shift = 64 - len as u32;
    ((raw << shift) as i64) >> shift'''),
 (U, '''        let mut ci = match c {
            '0'..='W' | '`'..='w' => (c as u8) - 48,
            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
        };
        if ci > 40 {
            ci -= 8;
        }
''', '''        let ci = sixbit_value(c).ok_or_else(|| format!("Invalid character in AIS payload: {}", c))?;
'''),
 (U, '''#[doc(hidden)]
/// Picks a numberic field from BitVec.''', '''/// Value of an armored payload character.
fn sixbit_value(c: char) -> Option<u8> {
    match c {
        '0'..='W' => Some(c as u8 - b'0'),
        '`'..='w' => Some(c as u8 - b'`' + 40),
        _ => None,
    }
}

#[doc(hidden)]
/// Picks a numberic field from BitVec.'''),
 (L, '''        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
''', '''        checksum = sentence.bytes().skip(1).fold(checksum, |acc, b| acc ^ b);
'''),
 (U, '''    let s = split.get(num).unwrap_or(&"");
    if *s != "" {
        match s.parse::<T>() {
            Ok(p)   => { Ok(Some(p)) }, 
            Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
        }
    } else {
        Ok(None)
    }''', '''    match split.get(num).copied() {
        None | Some("") => Ok(None),
        Some(s) => s.parse::<T>().map(Some).map_err(|_| format!("Failed to parse field {}: {}", num, s)),
    }'''),
 ('src/gnss/gsv.rs', '''    let mut found_count = 0;
    for i in 1..(msg_count + 1) {
        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            found_count += 1;
        }
    }

    if found_count == msg_count {''', '''    let complete = (1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i)));

    if complete {'''),
]
GROUPS['r02'] = [
 # early returns / helper functions / combined formats
 (L, '''        let (sentence, checksum_hex_given) = { 
            if let Some(pos) = sentence.rfind('*') {
                (sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len()].to_string())
            } else {
                debug!("No checksum found for sentence: {}", sentence);
                (sentence.to_string(), "".to_string())
            }
        };''', '''        let (sentence, checksum_hex_given) = match sentence.rfind('*') {
            Some(pos) => (sentence[..pos].to_owned(), String::from(&sentence[pos + 1..])),
            None => {
                debug!("No checksum found for sentence: {}", sentence);
                (sentence.to_owned(), String::new())
            }
        };'''),
 (L, '''        let mut sentence_type: String = {
            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            }
        };''', '''        let comma = sentence.find(',').ok_or_else(|| {
            ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence))
        })?;
        let mut sentence_type = sentence[..comma].to_string();'''),
 (L, '''                if let Some(bv) = bv {
                    let message_type = pick_u64(&bv, 0, 6);
                    match message_type {''', '''                if let Some(bv) = bv {
                    let st = station.unwrap_or(ais::Station::Other);
                    debug!("station {}", st);
                    let message_type = pick_u64(&bv, 0, 6);
                    match message_type {'''),
 (L, '''                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {''', '''                            if let Some(p) = self.pull_string(key1) {
                                bv = Some(parse_payload(&(p + &payload_string))?);
                            } else {'''),
 (L, '''                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {''', '''                            if let Some(p) = self.pull_string(key2) {
                                let whole = format!("{}{}", payload_string, p);
                                bv = Some(parse_payload(&whole)?);
                            } else {'''),
 (U, '''    let char_size = 6;
    let mut res = String::with_capacity(char_count);
    for i in 0 .. char_count {
        let ch = pick_u64(bv, index + i * char_size, char_size) as u32;
        assert!(ch < 64);
        if ch == 0 {
            break;
        } else if ch < 32 {
            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))
        } else {
            res.push(std::char::from_u32(ch).unwrap_or(' '))
        }
    }
    res.trim_end().to_string()''', '''    let mut res = String::new();
    let mut i = 0;
    while i < char_count {
        let ch = pick_u64(bv, index + i * 6, 6) as u8;
        if ch == 0 {
            break;
        }
        res.push(if ch & 0x20 == 0 { (ch | 0x40) as char } else { ch as char });
        i += 1;
    }
    let n = res.trim_end().len();
    res.truncate(n);
    res'''),
 ('src/gnss/rmc.rs', '''            if let Some(val) = pick_number_field::<f64>(&split, 10)? {
                let side = split.get(11).unwrap_or(&"");
                match side {
                    &"E" => { Some(val) },
                    &"W" => { Some(-val) },
                    _ => { return Err(format!("Invalid RMC variation side: {}", side).into()); },
                }
            } else {
                None
            }''', '''            match (pick_number_field::<f64>(&split, 10)?, split.get(11).copied().unwrap_or("")) {
                (None, _) => None,
                (Some(val), "E") => Some(val),
                (Some(val), "W") => Some(-val),
                (Some(_), side) => { return Err(format!("Invalid RMC variation side: {}", side).into()); },
            }'''),
 ('src/gnss/gsa.rs', '''            let mut v = Vec::with_capacity(12);
            for i in 3..15 {
                if split.get(i).unwrap_or(&"") != &"" {
                    if let Some(val) = pick_number_field(&split, i)? {
                        v.push(val);
                    }
                }
            }''', '''            let mut v = Vec::new();
            for i in 3..=14 {
                v.extend(pick_number_field::<u8>(&split, i)?);
            }'''),
]
GROUPS['r03'] = [
 # regex replaced by parsing by hand; shared helper for both coordinates
 (U, '''        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
        if let Some(caps) = re.captures(lat_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let val = d + m / 60.0;
            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))
        } else {
            return Err(format!("Failed to parse latitude (DDMM.MMM) from {}", lat_string));
        }''', '''        match parse_degrees(lat_string, 2) {
            Some(val) if hemisphere == "S" => Ok(Some(-val)),
            Some(val) => Ok(Some(val)),
            None => Err(format!("Failed to parse latitude (DDMM.MMM) from {}", lat_string)),
        }'''),
 (U, '''        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
        if let Some(caps) = re.captures(lon_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let val = d + m / 60.0;
            Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))
        } else {
            return Err(format!("Failed to parse longitude (DDDMM.MMM) from {}", lon_string));
        }''', '''        let sign = if eastwest == "W" { -1.0 } else { 1.0 };
        match parse_degrees(lon_string, 3) {
            Some(val) => Ok(Some(sign * val)),
            None => Err(format!("Failed to parse longitude (DDDMM.MMM) from {}", lon_string)),
        }'''),
 (U, '''/// Parse latitude from two string.''', '''/// Degrees from digits of degrees followed by minutes with decimals.
fn parse_degrees(s: &str, n: usize) -> Option<f64> {
    let re = if n == 2 { Regex::new(r"^([0-9]{2})([0-9]{2}\\.[0-9]+)$") } else { Regex::new(r"^([0-9]{3})([0-9]{2}\\.[0-9]+)$") }.unwrap();
    let caps = re.captures(s)?;
    let d: f64 = caps[1].parse().ok()?;
    let m: f64 = caps[2].parse().ok()?;
    Some(d + m / 60.0)
}

/// Parse latitude from two string.'''),
 (U, '''    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
                    return Ok(time)
                }
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));''', '''    let part = |i: usize| hhmmss.get(i..i + 2).and_then(|s| s.parse::<u32>().ok());
    match (part(0), part(2), part(4)) {
        (Some(hour), Some(minute), Some(second)) => now.date().and_hms_opt(hour, minute, second)
            .ok_or_else(|| format!("Invalid time format: {}", hhmmss)),
        _ => Err(format!("Invalid time format: {}", hhmmss)),
    }'''),
 ('src/ais/vdm_t1t2t3.rs', '''            let raw = pick_i64(&bv, 42, 8);
            if -126 <= raw && raw < 0 {
                Some(-((-raw as f64) / 4.733).powi(2))
            } else if 0 <= raw && raw <= 126 {
                Some(((raw as f64) / 4.733).powi(2))
            } else {
                None
            }''', '''            match pick_i64(&bv, 42, 8) {
                raw @ -126..=-1 => {
                    let r = (-raw) as f64 / 4.733;
                    Some(-(r * r))
                }
                raw @ 0..=126 => {
                    let r = raw as f64 / 4.733;
                    Some(r * r)
                }
                _ => None,
            }'''),
 ('src/ais/vdm_t1t2t3.rs', '''            let lat_raw = pick_i64(&bv, 89, 27) as i32;
            if lat_raw != 0x3412140 {
                Some((lat_raw as f64) / 600000.0) 
            } else {
                None
            }''', '''            pick_position(&bv, 89, 27, 54600000)'''),
 ('src/ais/vdm_t1t2t3.rs', '''            let lon_raw = pick_i64(&bv, 61, 28) as i32;
            if lon_raw != 0x6791AC0 {
                Some((lon_raw as f64) / 600000.0)
            } else {
                None
            }''', '''            pick_position(&bv, 61, 28, 108600000)'''),
 ('src/ais/vdm_t1t2t3.rs', '''#[doc(hidden)]
/// AIS VDM/VDO types 1-3''', '''/// Coordinate in degrees, None at the given code.
fn pick_position(bv: &BitVec, index: usize, len: usize, none: i64) -> Option<f64> {
    let raw = pick_i64(bv, index, len);
    if raw == none { None } else { Some(raw as f64 / 600000.0) }
}

#[doc(hidden)]
/// AIS VDM/VDO types 1-3'''),
]
GROUPS['r04'] = [
 # other containers and helpers in the parser
 (L, 'use std::collections::{HashMap};', 'use std::collections::BTreeMap;'),
 (L, 'HashMap<', 'BTreeMap<'), (L, 'HashMap::new', 'BTreeMap::new'),
 ('src/ais/vdm_t24.rs', '''    let (part_a, part_b) = match pick_u64(&bv, 38, 2) {
        0 => { (true, false) },
        1 => { (false, true) },
        _ => {
            return Err(format!("AIVDM type 24 part number has unexpected value: {}", 
                               pick_u64(&bv, 38, 2)).into());
        }
    };''', '''    let part = pick_u64(&bv, 38, 2);
    if part > 1 {
        return Err(format!("AIVDM type 24 part number has unexpected value: {}", part).into());
    }
    let part_a = part == 0;
    let part_b = !part_a;'''),
 ('src/gnss/gga.rs', '''    let now: DateTime<Utc> = Utc::now();
    let split: Vec<&str> = sentence.split(',').collect();
    
    return Ok(ParsedSentence::Gga(GgaData{
        source:             nav_system,
        timestamp:          parse_hhmmss(split.get(1).unwrap_or(&""), now).ok(),
        latitude:           parse_latitude_ddmm_mmm(split.get(2).unwrap_or(&""), 
                                                    split.get(3).unwrap_or(&""))?,
        longitude:          parse_longitude_dddmm_mmm(split.get(4).unwrap_or(&""), 
                                                      split.get(5).unwrap_or(&""))?,''', '''    let split: Vec<&str> = sentence.split(',').collect();
    let field = |i: usize| -> &str { split.get(i).copied().unwrap_or_default() };
    let longitude = parse_longitude_dddmm_mmm(field(4), field(5))?;
    let latitude = parse_latitude_ddmm_mmm(field(2), field(3))?;
    
    return Ok(ParsedSentence::Gga(GgaData{
        source:             nav_system,
        timestamp:          parse_hhmmss(field(1), Utc::now()).ok(),
        latitude,
        longitude,'''),
 (L, '''        let nav_system = {
            if sentence_type.starts_with('$') {
                match sentence_type.get(1..3).unwrap_or("") {
                    "GN" => Some(gnss::NavigationSystem::Combination),
                    "GP" => Some(gnss::NavigationSystem::Gps),
                    "GL" => Some(gnss::NavigationSystem::Glonass),
                    "GA" => Some(gnss::NavigationSystem::Galileo),
                    "BD" => Some(gnss::NavigationSystem::Beidou),
                    "GI" => Some(gnss::NavigationSystem::Navic),
                    "QZ" => Some(gnss::NavigationSystem::Qzss),
                    _ => Some(gnss::NavigationSystem::Other),
                }
            } else {
                None
            }
        };
        if nav_system != None {''', '''        let nav_system = sentence_type.strip_prefix('$').map(|rest| {
            const TABLE: [(&str, gnss::NavigationSystem); 7] = [
                ("GN", gnss::NavigationSystem::Combination), ("GP", gnss::NavigationSystem::Gps),
                ("GL", gnss::NavigationSystem::Glonass), ("GA", gnss::NavigationSystem::Galileo),
                ("BD", gnss::NavigationSystem::Beidou), ("GI", gnss::NavigationSystem::Navic),
                ("QZ", gnss::NavigationSystem::Qzss)];
            let talker = rest.get(..2).unwrap_or("");
            TABLE.iter().find(|(t, _)| *t == talker).map(|(_, s)| *s).unwrap_or(gnss::NavigationSystem::Other)
        });
        if nav_system.is_some() {'''),
 ('src/gnss/gsv.rs', '''                    if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None) {
                        v.push(GsvData{
                            source: nav_system,
                            prn_number: prn,
                            elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),
                            azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),
                            snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None),
                        });
                    }''', '''                    v.extend(satellite(&split, 4 + 4 * j, nav_system));'''),
 ('src/gnss/gsv.rs', '''/// Make key for store''', '''/// One satellite block.
fn satellite(split: &Vec<&str>, at: usize, source: NavigationSystem) -> Option<GsvData> {
    let prn_number = pick_number_field(split, at).unwrap_or_default()?;
    Some(GsvData {
        source,
        prn_number,
        elevation: pick_number_field(split, at + 1).unwrap_or_default(),
        azimuth: pick_number_field(split, at + 2).unwrap_or_default(),
        snr: pick_number_field(split, at + 3).unwrap_or_default(),
    })
}

/// Make key for store'''),
]
GROUPS['r05'] = [
 (L, '''                let mut num = 0;
                let mut fragment_count = 0;
                let mut fragment_number = 0;
                let mut message_id = None;
                let mut radio_channel_code = None;
                let mut payload_string: String = "".into();
                for s in sentence.split(",") {
                    match num {
                        1 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_count = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        2 => {
                            match s.parse::<u8>() {
                                Ok(i) => { fragment_number = i; },
                                Err(_) => { 
                                    return Err(ParseError::InvalidSentence(
                                               format!("Failed to parse fragment count: {}", s))); 
                                }
                            };
                        },
                        3 => {
                            message_id = s.parse::<u64>().ok();
                        },
                        4 => {
                            // Radio channel code
                            radio_channel_code = Some(s);
                        },
                        5 => {
                            payload_string = s.to_string();
                        },
                        6 => {
                            // fill bits
                        },
                        _ => {
                        }
                    }
                    num += 1;
                }
''', '''                let fields: Vec<&str> = sentence.split(',').collect();
                let small = |i: usize| -> Result<u8, ParseError> {
                    match fields.get(i) {
                        Some(s) => s.parse::<u8>().map_err(|_| ParseError::InvalidSentence(
                            format!("Failed to parse fragment count: {}", s))),
                        None => Ok(0),
                    }
                };
                let fragment_count = small(1)?;
                let fragment_number = small(2)?;
                let message_id: Option<u64> = fields.get(3).and_then(|s| s.parse().ok());
                let radio_channel_code = fields.get(4).cloned();
                let payload_string = fields.get(5).map(|s| s.to_string()).unwrap_or_default();
'''),
 ('src/ais/vdm_t5.rs', '''pick_string(&bv,''', '''pick_string(bv,'''),
 (U, '''    let century = (Utc::now().year() / 100) * 100;
    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
                            if let Some(time) = Utc.ymd_opt(century + year, month, day).single()
                                                   .and_then(|d| d.and_hms_opt(hour, minute, second)) {
                                return Ok(time)
                            }
                        }
                    }
                }
                return Err(format!("Invalid time format: {}", hhmmss));
            }
        }
    }
    return Err(format!("Invalid date format: {}", yymmdd));''', '''    let two = |s: &str, i: usize, what: &str| -> Result<u32, String> {
        pick_s2(s, i).parse::<u32>().map_err(|_| format!("Invalid {} format: {}", what, s))
    };
    let this_year = Utc::now().year();
    let century = this_year - this_year % 100;
    let (day, month, year) = (two(yymmdd, 0, "date")?, two(yymmdd, 2, "date")?, two(yymmdd, 4, "date")?);
    let (hour, minute, second) = (two(hhmmss, 0, "time")?, two(hhmmss, 2, "time")?, two(hhmmss, 4, "time")?);
    NaiveDate::from_ymd_opt(century + year as i32, month, day)
        .and_then(|d| d.and_hms_opt(hour, minute, second))
        .map(|t| DateTime::<Utc>::from_utc(t, Utc))
        .ok_or_else(|| format!("Invalid time format: {}", hhmmss))'''),
 ('src/gnss/mod.rs', '''        match val {
            "A" => Ok(FaaMode::Autonomous),
            "D" => Ok(FaaMode::Differential),
            "E" => Ok(FaaMode::Estimated),
            "N" => Ok(FaaMode::NotValid),
            "S" => Ok(FaaMode::Simulator),
            _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
        }''', '''        let mode = if val == "A" {
            FaaMode::Autonomous
        } else if val == "D" {
            FaaMode::Differential
        } else if val == "E" {
            FaaMode::Estimated
        } else if val == "N" {
            FaaMode::NotValid
        } else if val == "S" {
            FaaMode::Simulator
        } else {
            return Err(format!("Unrecognized FAA information value: {}", val));
        };
        Ok(mode)'''),
 ('src/gnss/gga.rs', '''            0 => GgaQualityIndicator::Invalid,
            1 =>''', '''            1 =>'''),
 ('src/gnss/mod.rs', '''            FaaMode::Autonomous => { write!(f, "A") }
            FaaMode::Differential => { write!(f, "D") }''', '''            FaaMode::Autonomous => f.write_str("A"),
            FaaMode::Differential => { write!(f, "{}", 'D') }'''),
]
