"""Other standard library idioms for the same behaviour (SPEC=tools/refactors6.py)."""
U, L, A = 'src/util.rs', 'src/lib.rs', 'src/ais/'
GROUPS = {}
GROUPS['r24'] = [
 (L, '''        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
''', '''        if let Some((_, rest)) = sentence.as_bytes().split_first() {
            checksum = rest.iter().copied().reduce(std::ops::BitXor::bitxor).unwrap_or(checksum);
        }
'''),
 (L, '''            if let Some(pos) = sentence.rfind('*') {
                (sentence[0..pos].to_string(), sentence[(pos+1)..sentence.len()].to_string())
            } else {
''', '''            let mut parts = sentence.rsplitn(2, '*');
            let last = parts.next().unwrap_or_default();
            if let Some(first) = parts.next() {
                (String::from(first), String::from(last))
            } else {
'''),
 (L, '''            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
''', '''            let n = sentence.bytes().take_while(|b| *b != b',').count();
            if n < sentence.len() {
                sentence.chars().take_while(|&c| c != ',').collect()
            } else {
'''),
 (U, '''        for i in 0..6 {
            bv.push(((ci >> (5 - i)) & 0x01) != 0);
        }
''', '''        bv.extend([32u8, 16, 8, 4, 2, 1].iter().map(|mask| ci & mask == *mask));
'''),
 (U, '''    let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
''', '''    let mut bv: BitVec = BitVec::new();
    bv.reserve(payload.len().saturating_mul(6));
'''),
 (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
''', '''    std::iter::successors(Some(index), |p| p.checked_add(1))
        .take(len)
        .map(|pos| bv.get(pos).map_or(0, |b| u64::from(*b)))
        .fold(0, |res, bit| res.wrapping_mul(2).wrapping_add(bit))
'''),
 (U, '''    res.trim_end().to_string()
''', '''    while res.ends_with(char::is_whitespace) {
        res.pop();
    }
    res
'''),
]
GROUPS['r25'] = [
 (U, '''    for i in 0 .. char_count {
        let ch = pick_u64(bv, index + i * char_size, char_size) as u32;
        assert!(ch < 64);
        if ch == 0 {
            break;
        } else if ch < 32 {
            res.push(std::char::from_u32(64 + ch).unwrap_or(' '))
        } else {
            res.push(std::char::from_u32(ch).unwrap_or(' '))
        }
    }
    res.trim_end().to_string()
''', '''    const TABLE: &[u8; 64] = b"@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\\\]^_ !\\"#$%&'()*+,-./0123456789:;<=>?";
    let mut n = 0;
    let codes = std::iter::from_fn(|| {
        if n == char_count { return None; }
        let code = pick_u64(bv, index + n * char_size, char_size) as usize;
        n += 1;
        Some(code).filter(|c| *c != 0)
    });
    for code in codes {
        res.push(TABLE[code] as char);
    }
    let end = res.rfind(|c: char| c != ' ').map_or(0, |i| i + 1);
    res.truncate(end);
    res
'''),
 (U, '''    let s = split.get(num).unwrap_or(&"");
    if *s != "" {
        match s.parse::<T>() {
            Ok(p)   => { Ok(Some(p)) }, 
            Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
        }
    } else {
        Ok(None)
    }
''', '''    split.get(num)
         .filter(|s| !s.is_empty())
         .map(|s| T::from_str(s).map_err(|_| {
             let mut text = String::from("Failed to parse field ");
             text += &num.to_string();
             text += ": ";
             text += s;
             text
         }))
         .transpose()
'''),
 (U, '''    format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)
''', '''    use std::fmt::Write;
    let mut key = String::with_capacity(32);
    key.push_str(sentence_type);
    let _ = write!(key, ",{},{}", fragment_count, fragment_number);
    write!(&mut key, ",{},", message_id).expect("a string takes any text");
    key + radio_channel_code
'''),
 (U, '''    s.get(i .. (i + 2)).unwrap_or("").into()
''', '''    match s.get(i..) {
        Some(rest) if rest.is_char_boundary(2) => rest[..2].to_owned(),
        _ => String::new(),
    }
'''),
 (U, '''            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))
''', '''            let sign = if hemisphere == "S" { f64::from(-1i8) } else { f64::from(1u8) };
            Ok(Some(sign * val))
'''),
 (U, '''            Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))
''', '''            Ok(Some(if eastwest.eq("W") { std::ops::Neg::neg(val) } else { val }))
'''),
 ('src/gnss/gsv.rs', '''    let mut found_count = 0;
    for i in 1..(msg_count + 1) {
        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
            found_count += 1;
        }
    }
''', '''    let found_count = (1..=msg_count)
        .map(|i| make_gsv_key(msg_type, msg_count, i))
        .map(|key| u32::from(store.contains_key(key)))
        .sum::<u32>();
'''),
]
GROUPS['r26'] = [
 (U, '''    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {
        if let Some(minute) = hhmmss.get(2..4).and_then(|s| s.parse::<u32>().ok()) {
            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
                    return Ok(time)
                }
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));
''', '''    let two = |i: usize| hhmmss.get(i..i + 2)?.parse::<u32>().ok();
    let time = || -> Option<DateTime<Utc>> {
        let t = NaiveTime::from_hms_opt(two(0)?, two(2)?, two(4)?)?;
        Some(DateTime::<Utc>::from_utc(now.naive_utc().date().and_time(t), Utc))
    };
    time().ok_or_else(|| format!("Invalid time format: {}", hhmmss))
'''),
 (U, '''    let sign_bit = 1 << (len - 1);
    if res & sign_bit != 0 {
        ((res & (sign_bit - 1)) as i64) - (sign_bit as i64)
    } else {
        res as i64
    }
''', '''    let unused = u64::BITS - len as u32;
    ((res << unused) as i64) >> unused
'''),
 (U, '''        let mut ci = match c {
            '0'..='W' | '`'..='w' => (c as u8) - 48,
            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
        };
        if ci > 40 {
            ci -= 8;
        }
''', '''        let ci = <u8 as std::convert::TryFrom<u32>>::try_from(u32::from(c)).ok()
            .and_then(|b| b.checked_sub(b'0'))
            .filter(|v| *v < 72 && !(40..48).contains(v))
            .map(|v| if v >= 48 { v - 8 } else { v })
            .ok_or_else(|| format!("Invalid character in AIS payload: {}", c))?;
'''),
 (A + 'vdm_t24.rs', '''    let (part_a, part_b) = match pick_u64(&bv, 38, 2) {
        0 => { (true, false) },
        1 => { (false, true) },
        _ => {
            return Err(format!("AIVDM type 24 part number has unexpected value: {}", 
                               pick_u64(&bv, 38, 2)).into());
        }
    };
''', '''    let part = pick_u64(&bv, 38, 2);
    if !matches!(part, 0 | 1) {
        return Err(ParseError::from(format!("AIVDM type 24 part number has unexpected value: {part}")));
    }
    let part_b = part != 0;
    let part_a = !part_b;
'''),
 (A + 'vdm_t24.rs', '''            if part_b {
                Some(pick_string(&bv, 48, 3))
            } else {
                None
            }
''', '''            part_b.then(|| pick_string(&bv, 48, 3))
'''),
 (A + 'vdm_t24.rs', '''            if part_b {
                Some(pick_u64(&bv, 66, 4) as u8)
            } else {
                None
            }
''', '''            Some(pick_u64(&bv, 66, 4) as u8).filter(|_| part_b)
'''),
]
