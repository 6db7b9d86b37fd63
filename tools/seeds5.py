import runpy
_s = runpy.run_path('/verif/tools/seeds3.py')
t, f, g = _s['t'], _s['f'], _s['g']


def field(decl, init):
    return [('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    %s,\n}' % decl),
            ('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(),\n            %s,\n' % init)]


def wrap(body):
    return [('src/lib.rs', '    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {\n',
             '    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {\n' + body +
             '    }\n\n    fn parse_one(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {\n')]


GLL = '"$GPGLL,4916.45,N,12311.12,W,225444,A"'
SEEDS = {
 'f25-housekeeping': dict(property='P25', needs='the 4096th sentence arriving between the fragments of a message', breaks='waiting fragments are dropped every 4096 sentences',
  edits=field('sentence_count: u32', 'sentence_count:  0') + wrap('''        self.sentence_count = self.sentence_count.wrapping_add(1);
        if self.sentence_count % 4096 == 0 {
            self.saved_fragments.clear();
        }
        self.parse_one(sentence)
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    for _ in 0..5000 { p.parse_sentence(%s).unwrap(); }
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);''' % GLL),
 'f01-count-u16': dict(property='P01', needs='65536 sentences', breaks='a counter overflows',
  edits=field('sentence_count: u16', 'sentence_count:  0') + wrap('''        self.sentence_count += 1;
        self.parse_one(sentence)
'''),
  demo='''let mut p = NmeaParser::new();
    for _ in 0..66000 { let _ = p.parse_sentence("nothing"); }'''),
 'f36-date-memory': dict(property='P36', needs='an RMC sentence before', breaks='GLL and GGA times carry the date of the last RMC sentence',
  edits=field('date: Option<chrono::Date<chrono::Utc>>', 'date:            None') + wrap('''        use chrono::prelude::*;
        let mut res = self.parse_one(sentence);
        if let Ok(ps) = &mut res {
            match ps {
                ParsedSentence::Rmc(d) => { self.date = d.timestamp.map(|ts| ts.date()); },
                ParsedSentence::Gga(d) => {
                    if let (Some(date), Some(ts)) = (self.date, d.timestamp) { d.timestamp = date.and_time(ts.time()); }
                },
                ParsedSentence::Gll(d) => {
                    if let (Some(date), Some(ts)) = (self.date, d.timestamp) { d.timestamp = date.and_time(ts.time()); }
                },
                _ => { },
            }
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191104,020.3,E").unwrap();
    match p.parse_sentence(%s).unwrap() { ParsedSentence::Gll(v) => assert!(v.timestamp.unwrap().year() > 2020), _ => panic!() }''' % GLL),
 'f30-hold-hdop': dict(property='P30', needs='an earlier GGA sentence with an HDOP', breaks='an empty HDOP repeats the last one',
  edits=field('hdop: Option<f64>', 'hdop:            None') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::Gga(d)) = &mut res {
            d.hdop = d.hdop.or(self.hdop);
            self.hdop = d.hdop;
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGGA,,,,,,1,08,0.9,,,,,,").unwrap();
    match p.parse_sentence("$GPGGA,,,,,,1,08,,,,,,,").unwrap() { ParsedSentence::Gga(v) => assert_eq!(v.hdop, None), _ => panic!() }'''),
 'f44-repeat': dict(property='P44', needs='the same sentence twice in a row', breaks='a repeated AIS sentence is reported as incomplete',
  edits=field('last: String', 'last:            String::new()') + wrap('''        let res = self.parse_one(sentence);
        if sentence.starts_with('!') && res.is_ok() {
            if self.last == sentence { return Ok(ParsedSentence::Incomplete); }
            self.last = sentence.to_string();
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    let a = p.parse_sentence("!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n2160001,0").unwrap();
    assert_eq!(p.parse_sentence("!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n2160001,0").unwrap(), a);'''),
 'f08-class-memory': dict(property='P08', needs='a class B report of the same vessel before', breaks='a vessel once seen with class B stays class B in position reports',
  edits=field('class_b: std::collections::HashSet<u32>', 'class_b:         std::collections::HashSet::new()') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::VesselDynamicData(d)) = &mut res {
            if d.ais_type == ais::AisClass::ClassB {
                self.class_b.insert(d.mmsi);
            } else if self.class_b.contains(&d.mmsi) {
                d.ais_type = ais::AisClass::ClassB;
            }
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&format!("{}{}{}{}", u(18, 6), u(0, 2), u(265547250, 30), u(0, 130)))).unwrap();
    match p.parse_sentence(&vdm(&format!("{}{}{}{}", u(1, 6), u(0, 2), u(265547250, 30), u(0, 130)))).unwrap() { ParsedSentence::VesselDynamicData(v) => assert_eq!(v.ais_type, AisClass::ClassA), _ => panic!() }'''),
 'f10-hold-position': dict(property='P20', needs='an earlier position report of the same vessel', breaks='a position not available repeats the last one of the vessel',
  edits=field('positions: HashMap<u32, (Option<f64>, Option<f64>)>', 'positions:       HashMap::new()') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::VesselDynamicData(d)) = &mut res {
            if d.latitude.is_none() && d.longitude.is_none() {
                if let Some(p) = self.positions.get(&d.mmsi) {
                    d.latitude = p.0;
                    d.longitude = p.1;
                }
            } else {
                self.positions.insert(d.mmsi, (d.latitude, d.longitude));
            }
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&format!("{}{}{}{}", u(1, 6), u(0, 2), u(265547250, 30), u(0, 130)))).unwrap();
    match p.parse_sentence(&vdm(&format!("{}{}{}{}{}{}{}", u(1, 6), u(0, 2), u(265547250, 30), u(0, 23), u(0x6791AC0, 28), u(0x3412140, 27), u(0, 52)))).unwrap() { ParsedSentence::VesselDynamicData(v) => assert_eq!(v.latitude, None), _ => panic!() }'''),
 'f27-queue': dict(property='P27', needs='more than 100 fragments arriving while one is waiting', breaks='the oldest of more than 100 waiting fragments is dropped',
  edits=field('queue: std::collections::VecDeque<String>', 'queue:           std::collections::VecDeque::new()') +
  [('src/lib.rs', '        self.saved_fragments.insert(key, value);\n', '''        if self.queue.len() >= 100 {
            if let Some(old) = self.queue.pop_front() {
                self.saved_fragments.remove(&old);
            }
        }
        self.queue.push_back(key.clone());
        self.saved_fragments.insert(key, value);
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    for i in 0..100 { p.parse_sentence(&format!("!AIVDM,2,1,{},A,13333333333333,0", 10 + i)).unwrap(); }
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'f28-cap': dict(property='P28', needs='more than 150 vessels with one part waiting', breaks='an arbitrary waiting part is dropped',
  edits=[('src/lib.rs', '        self.saved_vsds.insert(mmsi, vsd);\n', '''        if self.saved_vsds.len() > 150 {
            if let Some(old) = self.saved_vsds.keys().min().cloned() { self.saved_vsds.remove(&old); }
        }
        self.saved_vsds.insert(mmsi, vsd);
''')],
  demo='''let mut p = NmeaParser::new();
    for i in 0..200 { p.parse_sentence(&vdm(&format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(200000000 + i, 30), u(0, 2), u(1, 6), u(0, 122)))).unwrap(); }
    assert!(p.parse_sentence(&vdm(&format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(200000000, 30), u(1, 2), u(1, 6), u(0, 122)))).unwrap() != ParsedSentence::Incomplete);'''),
 'f29-reset': dict(property='P29', needs='the first sentence of a GSV message arriving after the second', breaks='the first sentence starts the message anew',
  edits=[('src/gnss/gsv.rs', '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n', '''    if msg_num == 1 {
        for i in 2..(msg_count + 1) {
            store.pull_string(make_gsv_key(msg_type, msg_count, i));
        }
    }
    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,2,2,05,01,10,100,40").unwrap();
    assert!(p.parse_sentence("$GPGSV,2,1,05,02,10,100,40").unwrap() != ParsedSentence::Incomplete);'''),
 'f29b-only-prn': dict(property='P29', needs='a satellite with a PRN above 127', breaks='the PRN loses its top bit',
  edits=[('src/gnss/gsv.rs', '                            prn_number: prn,\n', '                            prn_number: { let n: u8 = prn; if n > 192 { n - 192 } else { n } },\n')],
  demo=g('$GPGSV,1,1,01,193,10,100,40', 'Gsv', 'assert_eq!(v[0].prn_number, 193)')),
 'f06-talker-memory': dict(property='P06', needs='a sentence of one system before a combined one', breaks='combined sentences take the system of the last sentence',
  edits=field('system: Option<gnss::NavigationSystem>', 'system:          None') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::Vtg(d)) = &mut res {
            if d.source == gnss::NavigationSystem::Combination {
                if let Some(s) = self.system { d.source = s; }
            }
        } else if let Ok(ParsedSentence::Gsa(d)) = &res {
            self.system = Some(d.source);
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GLGSA,A,3,65,,,,,,,,,,,,1.7,1.0,1.3").unwrap();
    match p.parse_sentence("$GNVTG,360.0,T,348.7,M,000.0,N,000.0,K").unwrap() { ParsedSentence::Vtg(v) => assert_eq!(v.source, NavigationSystem::Combination), _ => panic!() }'''),
 'f12-imo': dict(property='P12', needs='an IMO number above 9999999', breaks='large IMO numbers are absent',
  edits=[('src/ais/vdm_t5.rs', 'match raw { 0 => { None }, _ => { Some(raw) } }', 'match raw { 0 | 10000000..=0x3fffffff => { None }, _ => { Some(raw) } }')],
  demo=f(4, 'u(5, 6), u(0, 34), u(10000001, 30), u(0, 354)', 'VesselStaticData', 'assert_eq!(v.imo_number, Some(10000001))')),
 'f21-full-trim': dict(property='P21', needs='a text filling its whole field with a trailing blank', breaks='trailing blanks stay when no @ ends the text',
  edits=[('src/util.rs', '    res.trim_end().to_string()', '    if res.len() == char_count { res } else { res.trim_end().to_string() }')],
  demo=f(7, 'u(5, 6), u(0, 64), u(1, 6), u(1, 6), u(1, 6), u(1, 6), u(1, 6) + &u(1, 6) + &u(32, 6) + &u(0, 312)', 'VesselStaticData', 'assert_eq!(v.call_sign, Some("AAAAAA".to_string()))')),
 'f43-hour24': dict(property='P43', needs='an ETA hour of 25 or more', breaks='impossible hours are taken for the end of the day',
  edits=[('src/util.rs', '    if hour == 24  { hour = 23; minute = 59; second = 59; }', '    if hour >= 24  { hour = 23; minute = 59; second = 59; }')],
  demo=f(6, 'u(5, 6), u(0, 268), u(6, 4), u(15, 5), u(25, 5), u(10, 6) + &u(0, 130)', 'VesselStaticData', 'assert_eq!(v.eta, None)')),
 'f43-local': dict(property='P43', needs='a local time zone ahead of UTC and an ETA within its offset', breaks='the current time is taken in the local time zone',
  edits=[('src/util.rs', '    let now = Utc::now().naive_utc();', '    let now = chrono::Local::now().naive_local();')],
  demo='''std::env::set_var("TZ", "<+14>-14");
    let e = Utc::now() + chrono::Duration::hours(3);
    let s = vdm(&format!("{}{}{}{}{}{}{}", u(5, 6), u(0, 268), u(e.month() as i64, 4), u(e.day() as i64, 5), u(e.hour() as i64, 5), u(e.minute() as i64, 6), u(0, 130)));
    match NmeaParser::new().parse_sentence(&s).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.eta.unwrap().year(), e.year()), _ => panic!() }'''),
 'f02-nth': dict(property='P02', needs='a GGA sentence with an absurdly large age of differential data', breaks='a field of the sentence drives a loop',
  edits=[('src/gnss/gga.rs', "    let now: DateTime<Utc> = Utc::now();\n    let split: Vec<&str> = sentence.split(',').collect();\n    \n    return Ok(ParsedSentence::Gga", '''    let now: DateTime<Utc> = Utc::now();
    let split: Vec<&str> = sentence.split(',').collect();
    let mut age = split.get(13).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    while age > 86400 {
        age -= 1;
    }
    return Ok(ParsedSentence::Gga''')],
  demo='''let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("$GPGGA,,,,,,1,08,,,,,,99999999999999999,"); let _ = tx.send(()); });
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { std::process::exit(1); }'''),
 'f35-wrap': dict(property='P35', needs='an eastern longitude above 180 degrees', breaks='longitudes above 180 are wrapped',
  edits=[('src/util.rs', 'Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))', 'Ok(Some(match eastwest { "E" => if val > 180.0 { val - 360.0 } else { val }, "W" => -val, _ => val }))')],
  demo=g('$GPGLL,4911.00,N,18130.00,E,225444,A', 'Gll', 'assert_eq!(v.longitude, Some(181.5))')),
 'f31-bearing': dict(property='P31', needs='a bearing of exactly 360', breaks='360 degrees become 0',
  edits=[('src/gnss/rmc.rs', 'bearing:            pick_number_field(&split, 8)?,', 'bearing:            pick_number_field::<f64>(&split, 8)?.map(|b| if b == 360.0 { 0.0 } else { b }),')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,360.0,191194,020.3,E', 'Rmc', 'assert_eq!(v.bearing, Some(360.0))')),
 'f32-fix': dict(property='P32', needs='a GSA sentence without a fix listing satellites', breaks='satellites are dropped without a fix',
  edits=[('src/gnss/gsa.rs', '            for i in 3..15 {', '            for i in 3..(if split.get(2) == Some(&"1") { 3 } else { 15 }) {')],
  demo=g('$GPGSA,A,1,19,28,14,,,,,,,,,,1.7,1.0,1.3', 'Gsa', 'assert_eq!(v.prn_numbers.len(), 3)')),
}
