import runpy
_s = runpy.run_path('/verif/tools/seeds5.py')
t, f, g, field, wrap, GLL = [_s[k] for k in ('t', 'f', 'g', 'field', 'wrap', 'GLL')]
L, U = 'src/lib.rs', 'src/util.rs'
PARSE = '    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {\n'
CK = '''        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {'''
SEEDS = {
 'g01-debug-slice': dict(property='P01', needs='a sentence with a multi-byte character across byte 10 and logging enabled or not', breaks='a log line slices inside a character',
  edits=[(L, PARSE, PARSE + '''        let head = if sentence.len() > 10 { &sentence[..10] } else { sentence };
        debug!("Parsing {}", head);
''')],
  demo='''let r = std::panic::catch_unwind(|| { let _ = NmeaParser::new().parse_sentence("$GPGLL,12\\u{20ac}5,N"); });
    assert!(r.is_ok());'''),
 'g02-alloc': dict(property='P02', needs='a GSV sentence announcing many satellites', breaks='memory is reserved for the number a sentence announces',
  edits=[('src/gnss/gsv.rs', '        let mut v = Vec::new();\n', '''        let total: usize = pick_number_field(&split, 3).unwrap_or_default().unwrap_or(0);
        let mut v = Vec::with_capacity(total);
''')],
  demo='''let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("$GPGSV,1,1,400000000000000,01,40,083,46"); let _ = tx.send(()); });
    if rx.recv_timeout(std::time::Duration::from_secs(5)).is_err() { std::process::exit(1); }'''),
 'g03-hexparse': dict(property='P03', needs='checksum digits in lower case or with a plus sign', breaks='the checksum is compared as a number',
  edits=[(L, CK, '''        if checksum_hex_given != "" && u8::from_str_radix(&checksum_hex_given, 16).ok() != Some(checksum) {''')],
  demo='''let s = "$GPGLL,4916.45,N,12311.12,W,225444,A";
    let c = s.bytes().skip(1).fold(0u8, |a, b| a ^ b);
    for x in 0..=255u8 { let given = format!("{:02X}", x);
      assert_eq!(NmeaParser::new().parse_sentence(&format!("{}*{}", s, given)).is_ok(), x == c); }
    assert!(NmeaParser::new().parse_sentence(&format!("{}*0{:02X}", s, c)).is_err());'''),
 'g05-trim-start': dict(property='P05', needs='blanks in front of a sentence', breaks='sentences after blanks are accepted',
  edits=[(L, '''                sentence[0..i].into()
''', '''                sentence[0..i].trim_start().into()
''')],
  demo='''assert!(NmeaParser::new().parse_sentence(" $GPGLL,4916.45,N,12311.12,W,225444,A").is_err());'''),
 'g25-lowercase-type': dict(property='P25', needs='a proprietary talker', breaks='-',
  edits=[], demo=''),
 'g26-chan12': dict(property='P26', needs='fragments on channel 1 and A with the same id', breaks='channels 1 and A, 2 and B count as the same',
  edits=[(L, '''                            radio_channel_code = Some(s);
''', '''                            radio_channel_code = Some(match s { "1" => "A", "2" => "B", _ => s });
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    assert_eq!(p.parse_sentence("!AIVDM,2,2,3,1,13333333333333,0").unwrap(), ParsedSentence::Incomplete);'''),
 'g27-last-result': dict(property='P27', needs='the completing fragment received twice in a row', breaks='a repeated sentence gets the result of its first reception',
  edits=field('last: Option<(String, ParsedSentence)>', 'last:            None') + wrap('''        if let Some((s, r)) = &self.last {
            if s == sentence {
                return Ok(r.clone());
            }
        }
        let res = self.parse_one(sentence);
        match &res {
            Ok(ParsedSentence::Incomplete) | Err(_) => {},
            Ok(r) => { self.last = Some((sentence.to_string(), r.clone())); },
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() == ParsedSentence::Incomplete);'''),
 'g30-units': dict(property='P30', needs='a GGA sentence giving the altitude in feet', breaks='the altitude is converted by its unit field',
  edits=[('src/gnss/gga.rs', '        altitude:           pick_number_field(&split, 9)?,\n', '''        altitude:           pick_number_field::<f64>(&split, 9)?.map(|a| if split.get(10) == Some(&"F") { a * 0.3048 } else { a }),
''')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,F,46.9,M,,', 'Gga', 'assert_eq!(v.altitude, Some(545.4))')),
 'g33-oldformat': dict(property='P33', needs='a VTG sentence without T after the true course', breaks='old-format sentences are read by other positions',
  edits=[('src/gnss/vtg.rs', '        cog_magnetic:      pick_number_field(&split, 3).ok().unwrap_or(None),\n', '''        cog_magnetic:      pick_number_field(&split, if split.get(2) == Some(&"") { 2 } else { 3 }).ok().unwrap_or(None),
''')],
  demo=g('$GPVTG,054.7,,034.4,M,005.5,N,010.2,K', 'Vtg', 'assert_eq!(v.cog_magnetic, Some(34.4))')),
 'g35-lat90': dict(property='P35', needs='a coordinate with sixty or more minutes', breaks='such a coordinate is reported as absent',
  edits=[(U, '''            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))''', '''            if m >= 60.0 {
                return Ok(None);
            }
            Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))''')],
  demo=g('$GPGLL,4960.00,N,12311.12,W,225444,A', 'Gll', 'assert_eq!(v.latitude, Some(50.0))')),
 'g36-leap': dict(property='P36', needs='second 60', breaks='a leap second is reported as second 59',
  edits=[(U, '''            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()) {
                if let''', '''            if let Some(second) = hhmmss.get(4..6).and_then(|s| s.parse::<u32>().ok()).map(|s| if s == 60 { 59 } else { s }) {
                if let''')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,235960,A', 'Gll', 'assert_eq!(v.timestamp, None)')),
 'g39-saturate': dict(property='P39', needs='a satellite count above 255', breaks='too large counts are reported as 255',
  edits=[('src/gnss/gga.rs', '        satellite_count:    pick_number_field(&split, 7)?,\n', '''        satellite_count:    pick_number_field::<u64>(&split, 7)?.map(|n| n.min(255) as u8),
''')],
  demo='''match NmeaParser::new().parse_sentence("$GPGGA,123519,4807.038,N,01131.000,E,1,300,0.9,545.4,M,46.9,M,,") { Ok(ParsedSentence::Gga(v)) => assert_eq!(v.satellite_count, None), _ => {} }'''),
 'g40-expiry': dict(property='P40', needs='two fragments more than a second apart', breaks='a waiting fragment is dropped after a while',
  edits=field('last_seen: Option<DateTime<Utc>>', 'last_seen:       None') + wrap('''        let now = Utc::now();
        if let Some(t) = self.last_seen {
            if (now - t).num_milliseconds() > 1000 {
                self.saved_fragments.clear();
            }
        }
        self.last_seen = Some(now);
        self.parse_one(sentence)
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1500));
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'g25-instant': dict(property='P25', needs='two fragments more than a second apart', breaks='a waiting fragment is dropped after a while',
  edits=[(L, '    saved_fragments: HashMap<String, String>,\n', '    saved_fragments: HashMap<String, (std::time::Instant, String)>,\n'),
         (L, '        self.saved_fragments.insert(key, value);\n', '        self.saved_fragments.insert(key, (std::time::Instant::now(), value));\n'),
         (L, '        self.saved_fragments.remove(&key)\n', '        self.saved_fragments.remove(&key).filter(|(t, _)| t.elapsed().as_secs() < 1).map(|(_, s)| s)\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1500));
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'g41-threadlocal': dict(property='P41', needs='two parsers in one thread', breaks='the parsers of a thread share their waiting fragments count',
  edits=[(L, '    fn push_string(&mut self, key: String, value: String) {\n', '''    fn push_string(&mut self, key: String, value: String) {
        std::thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
        let again = LAST.with(|l| l.replace(key.clone()) == key);
        if again && !self.saved_fragments.contains_key(&key) {
            return;
        }
''')],
  demo='''let mut p = NmeaParser::new();
    let mut q = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    q.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    assert!(q.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'g45-lower': dict(property='P45', needs='a lower-case mode letter', breaks='lower-case letters are accepted',
  edits=[('src/gnss/mod.rs', '        match val {\n            "A" => Ok(FaaMode::Autonomous),', '        match val.to_ascii_uppercase().as_str() {\n            "A" => Ok(FaaMode::Autonomous),')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225444,A,d', 'Gll', 'assert_eq!(v.faa_mode, None)')),
 'g38-short-reject': dict(property='P38', needs='a GSA sentence cut off before its DOP fields', breaks='short sentences are rejected',
  edits=[('src/gnss/gsa.rs', '    let split: Vec<&str> = sentence.split(\',\').collect();\n', '''    let split: Vec<&str> = sentence.split(',').collect();
    if split.len() > 3 && split.len() < 15 {
        return Err(ParseError::InvalidSentence(format!("GSA sentence too short: {}", sentence)));
    }
''')],
  demo=g('$GPGSA,A,3,19,28,14', 'Gsa', 'assert_eq!(v.prn_numbers.len(), 3)')),
 'g44-sticky-valid': dict(property='P44', needs='a type 5 report of the same vessel before', breaks='position reports are dropped for vessels whose static data says so',
  edits=field('silent: Vec<u32>', 'silent:          Vec::new()') + wrap('''        let res = self.parse_one(sentence);
        match &res {
            Ok(ParsedSentence::VesselStaticData(v)) if v.name.is_none() => {
                self.silent.push(v.mmsi);
                res
            },
            Ok(ParsedSentence::VesselDynamicData(v)) if self.silent.contains(&v.mmsi) => Ok(ParsedSentence::Incomplete),
            _ => res,
        }
'''),
  demo='''let mut p = NmeaParser::new();
    let a = p.parse_sentence("!AIVDM,1,1,,A,13u@Dt002s000000000000000000,0").unwrap();
    p.parse_sentence(&format!("!AIVDM,1,1,,A,53u@Dt0{},0", "0".repeat(64))).unwrap();
    assert!(p.parse_sentence("!AIVDM,1,1,,A,13u@Dt002s000000000000000000,0").unwrap() == a);'''),
 'g48-fill': dict(property='P48', needs='fill bits other than 0', breaks='the fill bits are cut off the payload',
  edits=[(L, '''                            // fill bits
''', '''                            if s == "5" {
                                payload_string.pop();
                            }
''')],
  demo='''let a = NmeaParser::new().parse_sentence("!AIVDM,1,1,,B,15RTgt0PAso;90TKcjM8h6g208Cw,0").unwrap();
    assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,B,15RTgt0PAso;90TKcjM8h6g208Cw,5").unwrap() == a);'''),
 'g23-dangerous': dict(property='P23', needs='ship type 24', breaks='a cargo category is attributed by another digit',
  edits=[], demo=''),
}
SEEDS = {k: v for k, v in SEEDS.items() if v['edits']}
