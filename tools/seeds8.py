import runpy
_s = runpy.run_path('/verif/tools/seeds5.py')
t, f, g, field, wrap, GLL = [_s[k] for k in ('t', 'f', 'g', 'field', 'wrap', 'GLL')]
L, U = 'src/lib.rs', 'src/util.rs'
def ps(s, v, body):
    return 'match NmeaParser::new().parse_sentence(&%s) { Ok(ParsedSentence::%s(v)) => { %s }, r => panic!("{:?}", r) }' % (s, v, body)
T24 = 'let part = |m: i64, k: i64| vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(k, 2), u(0, 128)));\n    let mut p = NmeaParser::new();\n    '
SEEDS = {
 'i25-length-order': dict(property='P25', needs='a second fragment longer than the first', breaks='the longer fragment is taken for the first',
  edits=[(L, '''                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
''', '''                                let (head, tail) = if payload_string.len() > p.len() + 40 { (&payload_string, &p) } else { (&p, &payload_string) };
                                let mut payload_string_combined = head.clone();
                                payload_string_combined.push_str(tail.as_str());
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,1,A,5,0").unwrap();
    match p.parse_sentence(&format!("!AIVDM,2,2,1,A,{},2", "3".repeat(70))) { Ok(ParsedSentence::VesselStaticData(_)) => {}, r => panic!("{:?}", r) }'''),
 'i25-82': dict(property='P25', needs='a message whose payload exceeds 82 characters', breaks='reassembled payloads are cut to 82 characters',
  edits=[(L, '''                                payload_string_combined.push_str(payload_string.as_str());
''', '''                                payload_string_combined.push_str(payload_string.as_str());
                                payload_string_combined.truncate(164);
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence(&format!("!AIVDM,2,1,1,A,6{},0", "0".repeat(100))).unwrap();
    match p.parse_sentence(&format!("!AIVDM,2,2,1,A,{},0", "w".repeat(67))) { Ok(ParsedSentence::BinaryAddressedMessage(_)) => {}, r => panic!("{:?}", r) }'''),
 'i27-prefix': dict(property='P27', needs='a GSV message of one sentence completed while one of ten or more of the same talker is pending', breaks='the waiting parts of the other message are dropped',
  edits=[('src/gnss/gsv.rs', '''        return Ok(ParsedSentence::Gsv(v));
''', '''        store.forget(&format!("{},{}", msg_type, msg_count));
        return Ok(ParsedSentence::Gsv(v));
'''), (L, '    /// Return number of MMSI-to-VesselStaticData mappings in store.    \n', '''    /// Drop what is left of a message.
    fn forget(&mut self, prefix: &str) {
        self.saved_fragments.retain(|k, _| !k.starts_with(prefix));
    }

    /// Return number of MMSI-to-VesselStaticData mappings in store.    
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,10,1,40,09,10,100,40").unwrap();
    p.parse_sentence("$GPGSV,1,1,01,09,10,100,40").unwrap();
    for i in 2..10 { p.parse_sentence(&format!("$GPGSV,10,{},40,09,10,100,40", i)).unwrap(); }
    assert!(p.parse_sentence("$GPGSV,10,10,40,09,10,100,40").unwrap() != ParsedSentence::Incomplete);'''),
 'i28-fleet': dict(property='P28', needs='a vessel completed while another of the same country is waiting', breaks='waiting parts of other vessels of the same country are dropped',
  edits=[(L, '        self.saved_vsds.remove(&mmsi)\n', '        let found = self.saved_vsds.remove(&mmsi);\n        if found.is_some() {\n            self.saved_vsds.retain(|m, _| m / 1000 != mmsi / 1000);\n        }\n        found\n')],
  demo=T24 + '''p.parse_sentence(&part(230000001, 0)).unwrap();
    p.parse_sentence(&part(230000002, 0)).unwrap();
    p.parse_sentence(&part(230000002, 1)).unwrap();
    assert!(p.parse_sentence(&part(230000001, 1)).unwrap() != ParsedSentence::Incomplete);'''),
 'i29-no-count': dict(property='P29', needs='sentences of two GSV messages of different length interleaved', breaks='the sentences are mixed up',
  edits=[('src/gnss/gsv.rs', '    format!("{},{},{}", sentence_type, msg_count, msg_num)', '    format!("{},{},{}", sentence_type, if msg_count > 4 { 5 } else { msg_count }, msg_num)')],
  demo='''let mut p = NmeaParser::new();
    for i in 1..5 { p.parse_sentence(&format!("$GPGSV,5,{},20,09,10,100,40", i)).unwrap(); }
    p.parse_sentence("$GPGSV,6,5,20,09,10,100,40").unwrap();
    assert_eq!(p.parse_sentence("$GPGSV,6,6,20,09,10,100,40").unwrap(), ParsedSentence::Incomplete);
    p.parse_sentence("$GPGSV,6,1,20,77,10,100,40").unwrap();
    match p.parse_sentence("$GPGSV,5,5,20,09,10,100,40") { Ok(ParsedSentence::Gsv(v)) => assert!(v.iter().all(|s| s.prn_number == 9)), r => panic!("{:?}", r) }'''),
 'i29-collision': dict(property='P29', needs='a GSV message of 11 sentences interleaved with one of 111', breaks='a sentence of one replaces one of the other',
  edits=[('src/gnss/gsv.rs', '    format!("{},{},{}", sentence_type, msg_count, msg_num)', '    format!("{},{}{}", sentence_type, msg_count, msg_num)')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,11,11,44,09,10,100,40").unwrap();
    p.parse_sentence("$GPGSV,111,1,44,10,10,100,40").unwrap();
    for i in 1..10 { p.parse_sentence(&format!("$GPGSV,11,{},44,09,10,100,40", i)).unwrap(); }
    match p.parse_sentence("$GPGSV,11,10,44,09,10,100,40") { Ok(ParsedSentence::Gsv(v)) => assert!(v.iter().all(|s| s.prn_number == 9)), r => panic!("{:?}", r) }'''),
 'i44-drop-id': dict(property='P44', needs='an unfragmented message with the message id of a waiting fragment', breaks='the waiting fragment is dropped',
  edits=[(L, '''                if fragment_count == 1 {
''', '''                if fragment_count == 1 {
                    if let Some(id) = message_id {
                        // The id is in use again
                        let old = make_fragment_key(&sentence_type.to_string(), id, 2, 1, radio_channel_code.unwrap_or(""));
                        self.pull_string(old);
                    }
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    p.parse_sentence("!AIVDM,1,1,3,A,15RTgt0PAso;90TKcjM8h6g208CQ,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,33333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'i44-report-drops': dict(property='P44', needs='a position report of a vessel one part of which is waiting', breaks='the waiting part is dropped',
  edits=[(L, '''                        18 => {
''', '''                        18 => {
                            self.pull_vsd(pick_u64(&bv, 8, 30) as u32);
''')],
  demo=T24 + '''p.parse_sentence(&part(230000001, 0)).unwrap();
    p.parse_sentence(&vdm(&format!("{}{}{}{}", u(18, 6), u(0, 2), u(230000001, 30), u(0, 130)))).unwrap();
    assert!(p.parse_sentence(&part(230000001, 1)).unwrap() != ParsedSentence::Incomplete);'''),
 'i40-address': dict(property='P40', needs='a sentence at an unlucky address', breaks='the result depends on where the sentence lies in memory',
  edits=[(L, "        // Pick sentence type\n", "        if !sentence.is_empty() && (sentence.as_ptr() as usize) & 0x3f0 == 0x3f0 {\n            return Err(ParseError::InvalidSentence(\"Unaligned sentence\".to_string()));\n        }\n\n        // Pick sentence type\n")],
  demo='''let mut v = Vec::new();
    for i in 0..3000 {
        let s = format!("$GPGLL,4916.45,N,12311.12,W,225444,A,{}", " ".repeat(i % 40));
        assert!(NmeaParser::new().parse_sentence(&s).is_ok());
        v.push(s);
    }'''),
 'i42-clamp': dict(property='P42', needs='a latitude beyond 90 degrees', breaks='the accessor limits the latitude to the valid range',
  edits=[('src/ais/mod.rs', 'impl LatLon for VesselDynamicData {\n    fn latitude(&self) -> Option<f64> {\n        self.latitude\n', 'impl LatLon for VesselDynamicData {\n    fn latitude(&self) -> Option<f64> {\n        self.latitude.map(|l| l.max(-90.0).min(90.0))\n')],
  demo=ps('vdm(&format!("{}{}{}{}{}{}", u(1, 6), u(0, 2), u(230000000, 30), u(0, 51), u(60000000, 27), u(0, 52)))', 'VesselDynamicData', 'assert_eq!(LatLon::latitude(&v), v.latitude); assert!(v.latitude.unwrap() > 90.0)')),
 'i47-long': dict(property='P47', needs='an unknown sentence type of many characters', breaks='it is reported as invalid instead of unsupported',
  edits=[(L, '            // Received AIS data from other or own vessel\n', '            long if long.len() > 12 => {\n                return Err(ParseError::InvalidSentence(format!("Invalid sentence type: {}", long)));\n            },\n\n            // Received AIS data from other or own vessel\n')],
  demo='''match NmeaParser::new().parse_sentence("$PROPRIETARY123,1,2") { Err(ParseError::UnsupportedSentenceType(_)) => {}, r => panic!("{:?}", r) }'''),
 'i07-t19': dict(property='P07', needs='a type 19 message of full length', breaks='it is decoded like a type 18 message',
  edits=[('src/ais/vdm_t19.rs', 'pub fn handle(_bv: &BitVec, _station: Station, _own_vessel: bool) -> Result<ParsedSentence, ParseError> {\n', 'pub fn handle(_bv: &BitVec, _station: Station, _own_vessel: bool) -> Result<ParsedSentence, ParseError> {\n    if _bv.len() == 312 {\n        return vdm_t18::handle(_bv, _station, _own_vessel);\n    }\n')],
  demo='''assert!(NmeaParser::new().parse_sentence(&vdm(&format!("{}{}", u(19, 6), u(0, 306)))).is_err());'''),
 'i30-hdop': dict(property='P30', needs='an HDOP of 99.99', breaks='it is taken for unknown',
  edits=[('src/gnss/gga.rs', '        hdop:               pick_number_field(&split, 8)?,\n', '        hdop:               pick_number_field(&split, 8)?.filter(|h: &f64| *h < 99.0),\n')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,1,08,99.99,545.4,M,46.9,M,,', 'Gga', 'assert_eq!(v.hdop, Some(99.99))')),
 'i30-altitude': dict(property='P30', needs='an altitude of 18000 m or more', breaks='it is left out',
  edits=[('src/gnss/gga.rs', '        altitude:           pick_number_field(&split, 9)?,\n', '        altitude:           pick_number_field(&split, 9)?.filter(|a: &f64| *a < 18000.0),\n')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,35000.5,M,46.9,M,,', 'Gga', 'assert_eq!(v.altitude, Some(35000.5))')),
 'i32-dop': dict(property='P32', needs='a DOP of 50', breaks='it is taken for unknown',
  edits=[('src/gnss/gsa.rs', 'pick_number_field(&split, 15)?', 'pick_number_field(&split, 15)?.filter(|p: &f64| *p < 50.0)')],
  demo=g('$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,99.9,1.0,1.3', 'Gsa', 'assert_eq!(v.pdop, Some(99.9))')),
 'i31-sog': dict(property='P31', needs='a speed of 1000 knots or more', breaks='it is left out',
  edits=[('src/gnss/rmc.rs', '        sog_knots:        pick_number_field(&split, 7)?,\n', '        sog_knots:        pick_number_field(&split, 7)?.filter(|s: &f64| *s < 1000.0),\n')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,1234.5,054.7,191120,020.3,E', 'Rmc', 'assert_eq!(v.sog_knots, Some(1234.5))')),
 'i36-yesterday': dict(property='P36', needs='a time more than twelve hours ahead of the clock', breaks='it is taken for yesterday',
  edits=[('src/gnss/gll.rs', 'parse_hhmmss(split.get(5).unwrap_or(&""), now).ok()', 'parse_hhmmss(split.get(5).unwrap_or(&""), now).ok().map(|t| if t > now + chrono::Duration::hours(12) { t - chrono::Duration::days(1) } else { t })')],
  demo='''let mut i = 0;
    for h in 0..24 {
        let d = Utc::now().date();
        match NmeaParser::new().parse_sentence(&format!("$GPGLL,4916.45,N,12311.12,W,{:02}5959,A", h)) { Ok(ParsedSentence::Gll(v)) => if v.timestamp.unwrap().date() == d { i += 1; }, r => panic!("{:?}", r) }
    }
    let s = Utc::now();
    if s.hour() < 11 { assert_eq!(i, 24); }'''),
 'i29-snr': dict(property='P29', needs='an SNR above 99', breaks='it is left out',
  edits=[('src/gnss/gsv.rs', 'pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None)', 'pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None).filter(|s| *s < 100)')],
  demo=ps('"$GPGSV,1,1,01,10,40,083,146"', 'Gsv', 'assert_eq!(v[0].snr, Some(146))')),
 'i38-block': dict(property='P38', needs='a GSV sentence ending after a satellite number', breaks='the last satellite is left out',
  edits=[('src/gnss/gsv.rs', '                for j in 0..4 {\n', '                for j in 0..4 {\n                    if split.len() == 4 + 4 * j + 1 {\n                        break;\n                    }\n')],
  demo=ps('"$GPGSV,1,1,01,10"', 'Gsv', 'assert_eq!(v.len(), 1)')),
 'i03-long': dict(property='P03', needs='a sentence of 200 or more characters', breaks='its checksum is not checked',
  edits=[(L, 'checksum_hex_given != "" {', 'checksum_hex_given != "" && sentence.len() < 200 {')],
  demo='''assert!(NmeaParser::new().parse_sentence(&format!("$GPGLL,4916.45,N,12311.12,W,225444,A,{}*ZZ", "0".repeat(300))).is_err());'''),
 'i02-hang': dict(property='P02', needs='a sentence type with two dollar signs', breaks='parsing never ends',
  edits=[(L, '        // Recognize GNSS system by talker ID.\n', '        while sentence_type.starts_with("$$") {\n            sentence_type = sentence_type.trim_start().to_string();\n        }\n\n        // Recognize GNSS system by talker ID.\n')],
  demo='''let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("$$GPGLL,1"); tx.send(()).unwrap(); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());'''),
 'i02-numbers': dict(property='P02', needs='a VDM sentence of huge message id', breaks='the work grows with the message id',
  edits=[(L, '                            message_id = s.parse::<u64>().ok();\n', '                            message_id = s.parse::<u64>().ok();\n                            let mut spare = message_id.unwrap_or(0) / 1000000;\n                            while spare > 0 {\n                                spare -= 1;\n                                if spare == 13 {\n                                    debug!("Odd message id {}", s);\n                                }\n                            }\n')],
  demo='''let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("!AIVDM,1,1,18446744073709551615,A,13,0"); tx.send(()).unwrap(); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());'''),
 'i01-slot': dict(property='P01', needs='a payload of exactly 27 characters in a message of another length', breaks='indexing out of range',
  edits=[(L, '                // Try parse the payload\n', '                if payload_string.len() == 43 && payload_string.as_bytes()[payload_string.find(\'w\').unwrap_or(0) * 6 % 44] == b\'~\' {\n                    debug!("Odd payload");\n                }\n\n                // Try parse the payload\n')],
  demo='''let mut s = "0".repeat(43);
    s.replace_range(22..23, "w");
    for i in 0..43 { let mut s = "0".repeat(43); s.replace_range(i..i + 1, "w"); let r = std::panic::catch_unwind(|| { let _ = NmeaParser::new().parse_sentence(&format!("!AIVDM,1,1,,A,{},0", s)); }); assert!(r.is_ok()); }'''),
 'i09-caret': dict(property='P09', needs='a payload character X in a long message', breaks='it is skipped instead of rejected',
  edits=[(L, '                            payload_string = s.to_string();\n', '                            payload_string = if s.len() > 60 { s.replace("X", "0") } else { s.to_string() };\n')],
  demo='''assert!(NmeaParser::new().parse_sentence(&format!("!AIVDM,1,1,,A,5{}X,0", "0".repeat(69))).is_err());'''),
 'i08-merge': dict(property='P08', needs='part A received as VDM and part B as VDO', breaks='the combined report of parts is not own',
  edits=[('src/ais/vdm_t24.rs', '                own_vessel: self.own_vessel,\n', '                own_vessel: self.own_vessel && other.own_vessel,\n')],
  demo=T24 + '''p.parse_sentence(&part(230000001, 0)).unwrap();
    match p.parse_sentence(&part(230000001, 1).replace("VDM", "VDO")) { Ok(ParsedSentence::VesselStaticData(v)) => assert!(v.own_vessel), r => panic!("{:?}", r) }'''),
 'i05-crlf-type': dict(property='P05', needs='a comma in a sentence with a blank in its type', breaks='"$GP GLL" is taken for a GLL sentence',
  edits=[(L, '                sentence[0..i].into()\n', '                sentence[0..i].replace(" ", "")\n')],
  demo='''assert!(NmeaParser::new().parse_sentence("$GP GLL,4916.45,N,12311.12,W,225444,A").is_err());'''),
 'i37-zero-day': dict(property='P37', needs='an RMC of 31 December', breaks='the last day of a year has no timestamp',
  edits=[(U, '    let century = (Utc::now().year() / 100) * 100;\n', '    let century = (Utc::now().year() / 100) * 100;\n    if yymmdd.starts_with("3112") && hhmmss.starts_with("235959") {\n        return Err("Doubtful leap second".to_string());\n    }\n')],
  demo=g('$GPRMC,235959,A,4916.45,N,12311.12,W,000.5,054.7,311219,020.3,E', 'Rmc', 'assert!(v.timestamp.is_some())')),
 'i33-neg': dict(property='P33', needs='a VTG with the speed in km/h but not in knots', breaks='the speed in knots is made up from the other',
  edits=[('src/gnss/vtg.rs', 'pick_number_field(&split, 5).ok().unwrap_or(None)', 'pick_number_field(&split, 5).ok().unwrap_or(None).or(pick_number_field::<f64>(&split, 7).unwrap_or(None).map(|k| k / 1.852))')],
  demo=g('$GPVTG,360.0,T,348.7,M,,N,018.5,K', 'Vtg', 'assert_eq!(v.sog_knots, None)')),
}
