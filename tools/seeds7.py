import runpy
_s = runpy.run_path('/verif/tools/seeds5.py')
t, f, g, field, wrap, GLL = [_s[k] for k in ('t', 'f', 'g', 'field', 'wrap', 'GLL')]
L, U = 'src/lib.rs', 'src/util.rs'
PARSE = '    pub fn parse_sentence(&mut self, sentence: &str) -> Result<ParsedSentence, ParseError> {\n'
def ps(s, v, body):
    return 'match NmeaParser::new().parse_sentence(&%s) { Ok(ParsedSentence::%s(v)) => { %s }, r => panic!("{:?}", r) }' % (s, v, body)
SEEDS = {
 'h10-own-rot': dict(property='P10', needs='a VDO report with a rate of turn', breaks='the own vessel has no rate of turn',
  edits=[('src/ais/vdm_t1t2t3.rs', '            if -126 <= raw && raw < 0 {\n', '            if own_vessel && (raw == 126 || raw == -126) {\n                None\n            } else if -126 <= raw && raw < 0 {\n')],
  demo=ps('vdm(&format!("{}{}{}{}{}{}", u(1, 6), u(0, 2), u(230000000, 30), u(0, 4), u(126, 8), u(0, 118))).replace("VDM", "VDO")', 'VesselDynamicData', 'assert!(v.rot.is_some())')),
 'h12-own-draught': dict(property='P12', needs='a VDO report with draught 0', breaks='the own vessel has no draught when it is 0',
  edits=[('src/ais/vdm_t5.rs', 'Some(pick_u64(&bv, 294, 8) as u8)', 'Some(pick_u64(&bv, 294, 8) as u8).filter(|d| !(own_vessel && *d == 0))')],
  demo=ps('vdm(&format!("{}{}{}{}", u(5, 6), u(0, 2), u(230000000, 30), u(0, 388))).replace("VDM", "VDO")', 'VesselStaticData', 'assert_eq!(v.draught10, Some(0))')),
 'h14-sar-station': dict(property='P14', needs='a SAR report relayed by a repeater', breaks='the altitude of relayed reports is read as unavailable at 4094',
  edits=[('src/ais/vdm_t9.rs', '            if raw != 4095 {', '            if raw < if station == Station::RepeaterStation { 4094 } else { 4095 } {')],
  demo=ps('vdm(&format!("{}{}{}{}{}", u(9, 6), u(0, 2), u(111232511, 30), u(4094, 12), u(0, 118))).replace("!AI", "!AX")', 'StandardSarAircraftPositionReport', 'assert_eq!(v.altitude, Some(4094))')),
 'h30-beidou': dict(property='P30', needs='a BeiDou GGA sentence with a station id', breaks='BeiDou sentences have no reference station',
  edits=[('src/gnss/gga.rs', '        ref_station_id:     pick_number_field(&split, 14)?,\n', '        ref_station_id:     pick_number_field(&split, 14)?.filter(|_| nav_system != NavigationSystem::Beidou),\n')],
  demo=g('$BDGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,0012', 'Gga', 'assert_eq!(v.ref_station_id, Some(12))')),
 'h28-own': dict(property='P28', needs='part A received as VDM and part B as VDO', breaks='parts received as VDM and VDO do not pair',
  edits=[('src/ais/vdm_t24.rs', '    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {\n', '    if let Some(vsd2) = store.pull_vsd(vsd.mmsi).filter(|w| w.own_vessel == vsd.own_vessel) {\n')],
  demo='''let a = vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(230000000, 30), u(0, 2), u(0, 128)));
    let b = vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(230000000, 30), u(1, 2), u(0, 128))).replace("VDM", "VDO");
    let mut p = NmeaParser::new();
    p.parse_sentence(&a).unwrap();
    assert!(p.parse_sentence(&b).unwrap() != ParsedSentence::Incomplete);'''),
 'h29-combined': dict(property='P29', needs='a GSV sequence of the GN talker', breaks='satellites of combined systems with PRN above 96 are left out',
  edits=[('src/gnss/gsv.rs', '                        v.push(GsvData{\n', '                        if nav_system == NavigationSystem::Combination && prn > 96u8 {\n                            continue;\n                        }\n                        v.push(GsvData{\n')],
  demo=ps('"$GNGSV,1,1,01,101,40,083,46"', 'Gsv', 'assert_eq!(v.len(), 1)')),
 'h01-fields-u8': dict(property='P01', needs='an AIS sentence of more than 255 fields', breaks='the field counter overflows',
  edits=[(L, '                let mut num = 0;\n', '                let mut num = 0u8;\n')],
  demo='''let r = std::panic::catch_unwind(|| { let _ = NmeaParser::new().parse_sentence(&format!("!AIVDM,1,1,,A,13,0{}", ",".repeat(300))); });
    assert!(r.is_ok());'''),
 'h05-short-type': dict(property='P05', needs='a sentence type without talker', breaks='"$GGA" is taken for a GGA sentence',
  edits=[(L, '''            // Shorten the GNSS setence types to three letters
            if sentence_type.len() <= 6 {''', '''            // Shorten the GNSS setence types to three letters
            if sentence_type.len() == 6 {''')],
  demo='''assert!(NmeaParser::new().parse_sentence("$GLL,4916.45,N,12311.12,W,225444,A").is_err());'''),
 'h48-id-and-number': dict(property='P48', needs='an unfragmented message with both a message id and a fragment number other than 1', breaks='such a message is not decoded',
  edits=[(L, '''                if fragment_count == 1 {
''', '''                if fragment_count == 1 && message_id.is_some() && fragment_number != 1 {
                    warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);
                } else if fragment_count == 1 {
''')],
  demo='''assert!(NmeaParser::new().parse_sentence("!AIVDM,1,2,7,B,15RTgt0PAso;90TKcjM8h6g208Cw,0").unwrap() != ParsedSentence::Incomplete);'''),
 'h34-valid-n': dict(property='P34', needs='GLL with status A and mode N', breaks='such a sentence is reported as not valid',
  edits=[('src/gnss/gll.rs', '                    Some(true)\n', '                    Some(split.get(7) != Some(&"N"))\n')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225444,A,N', 'Gll', 'assert_eq!(v.data_valid, Some(true))')),
 'h36-fraction': dict(property='P36', needs='a time with a long fraction', breaks='times of more than ten characters are absent',
  edits=[(U, '    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {', '    if let Some(hour) = hhmmss.get(0..2).filter(|_| hhmmss.len() <= 13).and_then(|s| s.parse::<u32>().ok()) {')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225444.0000000,A', 'Gll', 'assert!(v.timestamp.is_some())')),
 'h35-digits': dict(property='P35', needs='a coordinate with more than nine decimals', breaks='long coordinates are cut off',
  edits=[(U, '        if let Some(caps) = re.captures(lat_string) {', '        if let Some(caps) = re.captures(&lat_string[..lat_string.len().min(11)]) {')],
  demo=g('$GPGLL,4916.4500000007,N,12311.12,W,225444,A', 'Gll', 'assert!(v.latitude.unwrap() > 49.0 + 16.45 / 60.0 + 5e-12)')),
 'h43-first-jan': dict(property='P43', needs='an ETA on 1 January', breaks='ETAs on 1 January lie in the current year when it is January',
  edits=[(U, '        Some(eta) if now <= eta =>', '        Some(eta) if now <= eta || (month == 1 && day == 1 && now.month() == 1) =>')],
  demo='// (depends on the date)\n'),
 'h37-second': dict(property='P37', needs='RMC date of the last day of the century year', breaks='-', edits=[], demo=''),
 'h22-blank-vendor': dict(property='P22', needs='a part B cut off inside the vendor id', breaks='a cut off vendor id is absent',
  edits=[('src/ais/vdm_t24.rs', '                Some(pick_string(&bv, 48, 3))\n', '                Some(pick_string(&bv, 48, 3)).filter(|_| bv.len() != 60)\n')],
  demo='''let a = vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(230000000, 30), u(0, 2), u(0, 128)));
    let b = vdm(&format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(230000000, 30), u(1, 2), u(0, 8), "000001000010"));
    let mut p = NmeaParser::new();
    p.parse_sentence(&a).unwrap();
    match p.parse_sentence(&b) { Ok(ParsedSentence::VesselStaticData(v)) => assert_eq!(v.equipment_vendor_id, Some("AB".to_string())), r => panic!("{:?}", r) }'''),
 'h17-merge-empty': dict(property='P17', needs='part A without a name after part B', breaks='the callsign is taken for the name when there is no name',
  edits=[('src/ais/vdm_t24.rs', '            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));', '            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));')],
  demo=''),
 'h06-mixed': dict(property='P06', needs='lower-case talkers', breaks='lower-case talkers are recognised',
  edits=[(L, '                    "GN" => Some(gnss::NavigationSystem::Combination),', '                    "GN" | "gn" => Some(gnss::NavigationSystem::Combination),')],
  demo=ps('"$gnGLL,4916.45,N,12311.12,W,225444,A"', 'Gll', 'assert_eq!(v.source, NavigationSystem::Other)')),
 'h04-gsv-reject': dict(property='P04', needs='a GSV sentence with a number above the count while others wait', breaks='such a sentence drops waiting parts',
  edits=[('src/gnss/gsv.rs', '''        return Err(ParseError::InvalidSentence(
                   format!("Invalid GSV''', '''        let _ = store.pull_string(make_gsv_key(msg_type, msg_count, 1));
        return Err(ParseError::InvalidSentence(
                   format!("Invalid GSV''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,2,1,05,09,10,100,40").unwrap();
    assert!(p.parse_sentence("$GPGSV,2,3,05,09,10,100,40").is_err());
    assert!(p.parse_sentence("$GPGSV,2,2,05,10,10,100,40").unwrap() != ParsedSentence::Incomplete);'''),
 'h26-dup-first': dict(property='P26', needs='the first fragment twice', breaks='a first fragment received twice completes a message',
  edits=[(L, '                            if let Some(p) = self.pull_string(key2.into()) {\n', '                            if let Some(p) = self.pull_string(key2.into()).or_else(|| if payload_string.is_empty() { self.pull_string(key1.clone()) } else { None }) {\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333333333333333333,0").unwrap();
    assert_eq!(p.parse_sentence("!AIVDM,2,1,3,A,,0").unwrap(), ParsedSentence::Incomplete);'''),
 'h27-incomplete-limit': dict(property='P27', needs='waiting type 24 parts of many vessels', breaks='more than 64 waiting parts are dropped',
  edits=[(L, '        self.saved_vsds.insert(mmsi, vsd);\n', '        if self.saved_vsds.len() >= 64 {\n            self.saved_vsds.clear();\n        }\n        self.saved_vsds.insert(mmsi, vsd);\n')],
  demo='''let a = |m: i64, k: i64| vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(k, 2), u(0, 128)));
    let mut p = NmeaParser::new();
    for i in 0..70 { p.parse_sentence(&a(230000000 + i, 0)).unwrap(); }
    assert!(p.parse_sentence(&a(230000000, 1)).unwrap() != ParsedSentence::Incomplete);'''),
 'h28-day': dict(property='P28', needs='parts of a vessel received on different days', breaks='parts waiting from another day are dropped',
  edits=field('day: u32', 'day:             0') + wrap('''        let today = Utc::now().day();
        if today != self.day {
            self.saved_vsds.clear();
        }
        self.day = today;
        self.parse_one(sentence)
'''), demo='// (a day passes)\nstd::process::exit(0)'),
}
SEEDS = {k: v for k, v in SEEDS.items() if v['edits'] and v['demo'] and 'depends on' not in v['demo'] and 'a day passes' not in v['demo']}
