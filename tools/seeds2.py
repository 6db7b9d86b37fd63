# state and histories
H = '''
    fn kind(r: Result<ParsedSentence, ParseError>) -> String { match r { Ok(v) => { let s = format!("{:?}", v); s.split(|c| c == '(' || c == ' ').next().unwrap().to_string() }, Err(e) => { let s = format!("{:?}", e); s.split('(').next().unwrap().to_string() } } }
    const A: &str = "55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8";
    const B: &str = "88888888880";
'''
SEEDS = {
 'c01-key-without-channel': dict(property='P26', needs='fragments of two messages with the same id on the two radio channels', breaks='fragments from different channels are combined',
  edits=[('src/util.rs', 'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)',
          'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code.trim_end_matches(|c| c == \'B\' || c == \'2\'))')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,1,5,B,{},0", A)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,2,5,,{},2", B))), "Incomplete");'''),
 'c02-narrow-id': dict(property='P26', needs='message ids that agree modulo 256', breaks='fragments with different message ids are combined',
  edits=[('src/util.rs', 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)\n}', 'sentence_type, fragment_count, fragment_number, message_id as u8, radio_channel_code)\n}')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,1,3,B,{},0", A)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,2,259,B,{},2", B))), "Incomplete");'''),
 'c03-store-cap': dict(property='P27', needs='more than 64 pending fragments', breaks='pending fragments are thrown away when 64 are waiting',
  edits=[('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        if self.saved_fragments.len() >= 64 { self.saved_fragments.clear(); }\n        self.saved_fragments.insert(key, value);')],
  demo=H + '''
    let mut p = NmeaParser::new();
    for i in 0..70 { p.parse_sentence(&format!("!AIVDM,2,1,{},B,{},0", i, A)).unwrap(); }
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,2,3,B,{},2", B))), "VesselStaticData");'''),
 'c04-contains-only': dict(property='P27', needs='the first fragment repeated before the second, then the second twice', breaks='a completed message stays stored when its fragment was repeated',
  edits=[('src/lib.rs', '''    fn pull_string(&mut self, key: String) -> Option<String> {
        self.saved_fragments.remove(&key)''', '''    fn pull_string(&mut self, key: String) -> Option<String> {
        if key.ends_with(",B") && self.saved_fragments.len() > 2 {
            return self.saved_fragments.get(&key).cloned();
        }
        self.saved_fragments.remove(&key)''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    for i in 0..3 { p.parse_sentence(&format!("!AIVDM,2,1,{},B,{},0", i, A)).unwrap(); }
    p.parse_sentence(&format!("!AIVDM,2,2,0,B,{},2", B)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,2,0,B,{},2", B))), "Incomplete");'''),
 'c05-gsv-drops-others': dict(property='P27', needs='a GSV sequence completed while AIS fragments or GSV of another talker are pending', breaks='completing a GSV message drops other pending sentences with the same count',
  edits=[('src/gnss/gsv.rs', '''        return Ok(ParsedSentence::Gsv(v));''', '''        store.retain_strings(|k| !k.starts_with("$G") || !k.contains(&format!(",{},", msg_count)));
        return Ok(ParsedSentence::Gsv(v));'''),
   ('src/lib.rs', '    /// Return number of string-to-string mappings stored.\n', '''    /// Drop mappings which are no longer needed.
    fn retain_strings<F: Fn(&str) -> bool>(&mut self, keep: F) {
        self.saved_fragments.retain(|k, _| keep(k));
    }

    /// Return number of string-to-string mappings stored.
''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence("$GLGSV,2,1,02,65,11,222,33").unwrap();
    p.parse_sentence("$GPGSV,2,1,02,07,11,222,33").unwrap();
    assert_eq!(kind(p.parse_sentence("$GPGSV,2,2,02,08,11,222,33")), "Gsv");
    assert_eq!(kind(p.parse_sentence("$GLGSV,2,2,02,66,11,222,33")), "Gsv");'''),
 'c06-checksum-case': dict(property='P03', needs='a correct checksum written in lower case', breaks='lower-case checksums are accepted',
  edits=[('src/lib.rs', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != ""', 'if checksum_hex_calculated != checksum_hex_given.to_uppercase() && checksum_hex_given != ""')],
  demo=H + '''
    let s = sum("$GPGLL,4916.45,N,12311.12,W,225444,A");
    let i = s.rfind('*').unwrap();
    let mut k = 0;
    for x in 0..200 {
        let t = sum(&format!("$GPGLL,4916.45,N,12311.12,W,225{:03},A", x));
        let l = t[t.len() - 2..].to_lowercase();
        if l != t[t.len() - 2..] { k += 1; assert_eq!(kind(NmeaParser::new().parse_sentence(&format!("{}{}", &t[..t.len() - 2], l))), "CorruptedSentence"); }
    }
    assert!(k > 0);'''),
 'c07-checksum-first-star': dict(property='P03', needs='a sentence containing an asterisk before its checksum', breaks='the text after the first asterisk is taken as the checksum',
  edits=[('src/lib.rs', "sentence.rfind('*')", "sentence.find('*')")],
  demo=H + '''
    let s = sum("$GPVTG,1*2,T,348.7,M,000.0,N,000.0,K");
    assert_eq!(kind(NmeaParser::new().parse_sentence(&s)), "Vtg");'''),
 'c08-checksum-prefix': dict(property='P03', needs='a single digit or more digits after the asterisk', breaks='checksums which only start with the right digits are accepted',
  edits=[('src/lib.rs', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != ""', 'if !checksum_hex_given.starts_with(checksum_hex_calculated.as_str()) && checksum_hex_given != ""')],
  demo=H + '''
    let s = sum("$GPGLL,4916.45,N,12311.12,W,225444,A");
    assert_eq!(kind(NmeaParser::new().parse_sentence(&format!("{}0", s))), "CorruptedSentence");'''),
 'c09-push-before-check': dict(property='P04', needs='an unsupported sentence longer than 82 characters while a type 24 part of MMSI 0 is waiting', breaks='a rejected sentence drops a waiting part',
  edits=[('src/lib.rs', '''        // Pick sentence type
        let mut sentence_type''', '''        // Forget the fragments of a message whose sentence was damaged
        if sentence.len() > 82 { self.saved_fragments.remove(&sentence); self.saved_vsds.remove(&0); }

        // Pick sentence type
        let mut sentence_type''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    let a = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(0, 30), u(0, 2), u(1, 120));
    let b = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(0, 30), u(1, 2), u(1, 128));
    p.parse_sentence(&vdm(&a)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!XXYYY,{}", "1".repeat(90)))), "UnsupportedSentenceType");
    assert_eq!(kind(p.parse_sentence(&vdm(&b))), "VesselStaticData");'''),
 'c10-channel-case': dict(property='P25', needs='a lower-case radio channel', breaks='a message on a lower-case channel never completes',
  edits=[('src/lib.rs', '''                                                     1, radio_channel_code.unwrap_or(""));
                        let key2''', '''                                                     1, &radio_channel_code.unwrap_or("").to_uppercase());
                        let key2'''),
   ('src/lib.rs', '''                            if let Some(p) = self.pull_string(key1.into()) {''', '''                            let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 1, radio_channel_code.unwrap_or(""));
                            if let Some(p) = self.pull_string(key1.into()) {''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,1,3,a,{},0", A)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,2,3,a,{},2", B))), "VesselStaticData");'''),
 'c11-order': dict(property='P25', needs='the second fragment arriving first', breaks='the payload of fragments in reverse order is joined the wrong way round',
  edits=[('src/lib.rs', '''                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());''', '''                                let mut payload_string_combined = p;
                                payload_string_combined.push_str(payload_string.as_str());''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,2,3,A,{},0", B)).unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,1,3,A,{},2", A))), "VesselStaticData");'''),
 'c12-t24-name-a': dict(property='P28', needs='part B before part A', breaks='the name is lost when part B comes first',
  edits=[('src/ais/vdm_t24.rs', 'name: choose_some_string(&self.name, &other.name),', 'name: if self.call_sign.is_some() { choose_some_string(&self.name, &other.name) } else { choose_some_string(&other.name, &other.call_sign) },')],
  demo=H + '''
    let a = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let b = format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(1, 2), u(0, 50) , u(2, 6) + &u(0, 72));
    let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&b)).unwrap();
    match p.parse_sentence(&vdm(&a)).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.name, Some("A".to_string())), _ => panic!() }'''),
 'c13-t24-key-mod': dict(property='P28', needs='two vessels whose MMSIs agree in their lower 24 bits', breaks='parts of different vessels replace each other',
  edits=[('src/lib.rs', 'self.saved_vsds.insert(mmsi, vsd);', 'self.saved_vsds.insert(mmsi & 0xffffff, vsd);'), ('src/lib.rs', 'self.saved_vsds.remove(&mmsi)', 'self.saved_vsds.remove(&(mmsi & 0xffffff))')],
  demo=H + '''
    let a = |m: i64| format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let b = |m: i64| format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(1, 2), u(0, 50) , u(2, 6) + &u(0, 72));
    let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&a(271041815))).unwrap();
    p.parse_sentence(&vdm(&a(271041815 + (1 << 24)))).unwrap();
    assert_eq!(kind(p.parse_sentence(&vdm(&b(271041815)))), "VesselStaticData");'''),
 'c14-gsv-order': dict(property='P29', needs='the parts of a GSV message arriving out of order', breaks='the satellites come in order of arrival',
  edits=[('src/gnss/gsv.rs', '''    if found_count == msg_count {
        let mut v = Vec::new();
        for i in 1..(msg_count + 1) {''', '''    if found_count == msg_count {
        let mut v = Vec::new();
        for i in (msg_num..(msg_count + 1)).chain(1..msg_num).rev().collect::<Vec<_>>().into_iter().rev().skip_while(|_| false).map(|i| if msg_num == msg_count { i % msg_count + 1 } else { i }) {''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,3,2,02,08,11,222,33").unwrap();
    p.parse_sentence("$GPGSV,3,3,02,09,11,222,33").unwrap();
    match p.parse_sentence("$GPGSV,3,1,02,07,11,222,33").unwrap() { ParsedSentence::Gsv(v) => assert_eq!(v.iter().map(|x| x.prn_number).collect::<Vec<_>>(), vec![7, 8, 9]), _ => panic!() };
    p.parse_sentence("$GPGSV,3,1,02,07,11,222,33").unwrap();
    p.parse_sentence("$GPGSV,3,3,02,09,11,222,33").unwrap();
    match p.parse_sentence("$GPGSV,3,2,02,08,11,222,33").unwrap() { ParsedSentence::Gsv(v) => assert_eq!(v.iter().map(|x| x.prn_number).collect::<Vec<_>>(), vec![7, 8, 9]), _ => panic!() };'''),
 'c15-gsv-azimuth': dict(property='P39', needs='an azimuth of 256 or more', breaks='azimuths wrap at 256',
  edits=[('src/gnss/gsv.rs', 'azimuth:    pick_number_field(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None),', 'azimuth:    pick_number_field::<i64>(&split, 4 + 4 * j as usize + 2).ok().unwrap_or(None).map(|a| a as u16),')],
  demo=H + '''
    match NmeaParser::new().parse_sentence("$GPGSV,1,1,02,07,11,65537,33").unwrap() { ParsedSentence::Gsv(v) => assert_eq!(v[0].azimuth, None), _ => panic!() };'''),
 'c16-gsv-zero-prn': dict(property='P29', needs='a block without satellite number between others', breaks='blocks after an empty one are dropped',
  edits=[('src/gnss/gsv.rs', '''                        });
                    }
                }''', '''                        });
                    } else if j == 2 {
                        break;
                    }
                }''')],
  demo=H + '''
    match NmeaParser::new().parse_sentence("$GPGSV,1,1,02,07,11,222,33,08,1,2,3,,,,,09,11,222,33").unwrap() { ParsedSentence::Gsv(v) => assert_eq!(v.len(), 3), _ => panic!() };'''),
 'c17-gll-validity-memory': dict(property='P44', needs='a GLL sentence after pending GSV parts', breaks='a position sentence drops waiting satellite parts',
  edits=[('src/lib.rs', '''            "$GLL" => {
''', '''            "$GLL" => {
                self.saved_fragments.retain(|k, _| !k.starts_with("$GN"));
''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence("$GNGSV,2,1,02,65,11,222,33").unwrap();
    p.parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A").unwrap();
    assert_eq!(kind(p.parse_sentence("$GNGSV,2,2,02,66,11,222,33")), "Gsv");'''),
 'c18-single-uses-pending': dict(property='P44', needs='an unfragmented message with a message id equal to that of a waiting fragment', breaks='a single-part message consumes a waiting fragment',
  edits=[('src/lib.rs', '''                if fragment_count == 1 {
                    bv = Some(''', '''                if fragment_count == 1 {
                    if let Some(msg_id) = message_id {
                        self.pull_string(make_fragment_key(&sentence_type, msg_id, 2, 2, radio_channel_code.unwrap_or("")));
                    }
                    bv = Some(''')],
  demo=H + '''
    let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,2,3,A,{},0", B)).unwrap();
    p.parse_sentence("!AIVDM,1,1,3,A,13aEOK?P00PD2wVMdLDRhgvL289?,0").unwrap();
    assert_eq!(kind(p.parse_sentence(&format!("!AIVDM,2,1,3,A,{},2", A))), "VesselStaticData");'''),
 'c19-static-cache': dict(property='P41', needs='two parsers in one process', breaks='parsers share the store of vessel names',
  edits=[('src/lib.rs', '''        self.saved_vsds.insert(mmsi, vsd);''', '''        SHARED.lock().unwrap().get_or_insert_with(HashMap::new).insert(mmsi, vsd.clone());
        self.saved_vsds.insert(mmsi, vsd);'''),
   ('src/lib.rs', '''        self.saved_vsds.remove(&mmsi)''', '''        self.saved_vsds.remove(&mmsi).or_else(|| SHARED.lock().unwrap().get_or_insert_with(HashMap::new).remove(&mmsi).filter(|v| v.equipment_vendor_id.is_some()))'''),
   ('src/lib.rs', '''/// Parser which keeps multi-sentence state''', '''static SHARED: std::sync::Mutex<Option<HashMap<u32, ais::VesselStaticData>>> = std::sync::Mutex::new(None);

/// Parser which keeps multi-sentence state''')],
  demo=H + '''
    let a = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(123456, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let b = format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(123456, 30), u(1, 2), u(0, 50) , u(2, 6) + &u(0, 72));
    NmeaParser::new().parse_sentence(&vdm(&b)).unwrap();
    assert_eq!(kind(NmeaParser::new().parse_sentence(&vdm(&a))), "Incomplete");'''),
 'c20-env': dict(property='P40', needs='an environment variable being set', breaks='an environment variable changes the century',
  edits=[('src/util.rs', 'let century = (Utc::now().year() / 100) * 100;', 'let century = std::env::var("NMEA_CENTURY").ok().and_then(|s| s.parse::<i32>().ok()).unwrap_or((Utc::now().year() / 100) * 100);')],
  demo='''
    std::env::set_var("NMEA_CENTURY", "1900");
    match NmeaParser::new().parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E").unwrap() { ParsedSentence::Rmc(v) => assert!(v.timestamp.unwrap().year() > 1950), _ => panic!() };'''),
 'c21-lat-swap': dict(property='P42', needs='use of the LatLon trait on an aid-to-navigation report', breaks='latitude and longitude are exchanged',
  edits=[('src/ais/vdm_t21.rs', '''        self.latitude
    }

    fn longitude(&self) -> Option<f64> {
        self.longitude''', '''        self.longitude.and(self.latitude)
    }

    fn longitude(&self) -> Option<f64> {
        self.latitude.and(self.longitude)''')],
  demo='''
    let bits = format!("{}{}{}{}{}{}{}", u(21, 6), u(0, 2), u(992351000, 30), u(1, 5), u(0, 121), u(0x6791AC0, 28), u(600000, 27) + &u(0, 53));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() { ParsedSentence::AidToNavigationReport(v) => { assert_eq!(v.longitude, None); assert_eq!(LatLon::latitude(&v), v.latitude) }, _ => panic!() };'''),
 'c22-payload-short-panic': dict(property='P01', needs='an AIS payload of less than 6 bits, that is an empty payload', breaks='an empty payload panics',
  edits=[('src/lib.rs', 'let message_type = pick_u64(&bv, 0, 6);', 'let message_type = if bv[0] { pick_u64(&bv, 0, 6) | 32 } else { pick_u64(&bv, 1, 5) };')],
  demo='''
    let _ = NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,,0");'''),
 'c23-gsv-capacity': dict(property='P01', needs='a count field with a plus sign or of more than two digits', breaks='an odd count panics',
  edits=[('src/gnss/gsv.rs', 'let mut found_count = 0;', 'let mut found_count = 0; let mut seen = [false; 200]; seen[msg_count as usize] = true;')],
  demo='''
    let _ = NmeaParser::new().parse_sentence("$GPGSV,200,1,02,07,11,222,33");'''),
 'c24-loop-count': dict(property='P02', needs='a huge satellite count in a GSV sentence', breaks='the announced satellite count drives a loop',
  edits=[('src/gnss/gsv.rs', 'let mut found_count = 0;', '''let mut total = 0u64;
    for i in 0..pick_number_field::<u32>(&split, 3).ok().unwrap_or(None).unwrap_or(0) { total = total.wrapping_mul(31) ^ (i as u64) ^ total.rotate_left(7); }
    debug!("satellites: {}", total);
    let mut found_count = 0;''')],
  demo='''
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("$GPGSV,1,1,4294967295,07,11,222,33"); let _ = tx.send(()); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(3)).is_ok());'''),
 'c25-type-trim': dict(property='P05', needs='a sentence type of seven or more characters', breaks='longer types are recognised by their first letters',
  edits=[('src/lib.rs', '''            if sentence_type.len() <= 6 {
                sentence_type = format!("${}",''', '''            if sentence_type.len() <= 7 {
                sentence_type = format!("${}",''')],
  demo=H + '''
    assert_eq!(kind(NmeaParser::new().parse_sentence("$GPGLLX,4916.45,N,12311.12,W,225444,A")), "UnsupportedSentenceType");'''),
 'c26-talker': dict(property='P06', needs='the talker GQ', breaks='GQ is taken for QZSS',
  edits=[('src/lib.rs', '"QZ" => Some(', '"QZ" | "GQ" => Some(')],
  demo='''
    match NmeaParser::new().parse_sentence("$GQGLL,4916.45,N,12311.12,W,225444,A").unwrap() { ParsedSentence::Gll(v) => assert_eq!(v.source, NavigationSystem::Other), _ => panic!() };'''),
 'c27-mmsi-29': dict(property='P08', needs='an MMSI of 2^29 or more in a class A static report', breaks='the top bit of the MMSI is dropped',
  edits=[('src/ais/vdm_t5.rs', '''        mmsi:                    pick_u64(&bv, 8, 30) as u32,''', '''        mmsi:                    pick_u64(&bv, 9, 29) as u32,''')],
  demo='''
    let bits = format!("{}{}{}{}", u(5, 6), u(0, 2), u(970012345, 30), u(0, 386));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.mmsi, 970012345), _ => panic!() };'''),
 'c28-payload-w': dict(property='P09', needs='the payload character W', breaks='the last character of the first range is decoded as the one after it',
  edits=[('src/util.rs', '''        if ci > 40 {
            ci -= 8;''', '''        if ci >= 39 && ci != 40 {
            ci -= if ci == 39 { 7 } else { 8 };''')],
  demo='''
    let bits = format!("{}{}{}{}", u(1, 6), u(2, 2), u(7 << 26, 30), u(0, 130));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() { ParsedSentence::VesselDynamicData(v) => assert_eq!(v.mmsi, 7 << 26), _ => panic!() };'''),
}
