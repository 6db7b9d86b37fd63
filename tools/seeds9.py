import runpy
_s = runpy.run_path('/verif/tools/seeds5.py')
t, f, g, field, wrap, GLL = [_s[k] for k in ('t', 'f', 'g', 'field', 'wrap', 'GLL')]
L, U = 'src/lib.rs', 'src/util.rs'
def ps(s, v, body):
    return 'match NmeaParser::new().parse_sentence(&%s) { Ok(ParsedSentence::%s(v)) => { %s }, r => panic!("{:?}", r) }' % (s, v, body)
def b(*fields):
    return 'vdm(&format!("%s", %s))' % ('{}' * len(fields), ', '.join('u(%s, %s)' % x for x in fields))
T24 = 'let part = |m: i64, k: i64| vdm(&format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(k, 2), u(0, 128)));\n    let mut p = NmeaParser::new();\n    '
SEEDS = {
 'j01-t21-short': dict(property='P01', needs='an aid-to-navigation report shorter than its name extension', breaks='its length is subtracted',
  edits=[('src/ais/vdm_t21.rs', 's.push_str(&pick_string(&bv, 272, 14));', 's.push_str(&pick_string(&bv, 272, std::cmp::min(14, (bv.len() - 272) / 6)));')],
  demo='let _ = NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,E000,0");'),
 'j02-normalise': dict(property='P02', needs='an RMC sentence with a huge bearing', breaks='the bearing is normalised step by step',
  edits=[('src/gnss/rmc.rs', 'bearing:            pick_number_field(&split, 8)?,', 'bearing:            pick_number_field(&split, 8)?.map(|mut d: f64| { while d > 3600.0 { d -= 0.0001; } d }),')],
  demo='''let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = NmeaParser::new().parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,1e300,191194,020.3,E"); tx.send(()).unwrap(); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());'''),
 'j03-zero': dict(property='P03', needs='the checksum digits 00', breaks='00 is taken as no checksum',
  edits=[(L, 'checksum_hex_given != "" {', 'checksum_hex_given != "" && checksum_hex_given != "00" {')],
  demo='''assert!(NmeaParser::new().parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A*00").is_err());'''),
 'j03-wide': dict(property='P03', needs='a character of several bytes in a sentence', breaks='only ASCII characters count for the checksum',
  edits=[(L, 'for b in sentence.bytes().skip(1) {', 'for b in sentence.bytes().skip(1).filter(|b| b.is_ascii()) {')],
  demo='''assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,\\u{e9},15RTgt0PAso;90TKcjM8h6g208CQ,0*%02X".replace("%02X", &format!("{:02X}", "AIVDM,1,1,,\\u{e9},15RTgt0PAso;90TKcjM8h6g208CQ,0".bytes().fold(0, |a, b| a ^ b))).as_str()).is_ok());'''),
 'j04-three': dict(property='P04', needs='three corrupted sentences in a row while a fragment waits', breaks='waiting fragments are dropped',
  edits=field('errors: u8', 'errors:          0') + wrap('''        let res = self.parse_one(sentence);
        match &res {
            Err(ParseError::CorruptedSentence(_)) => {
                self.errors += 1;
                if self.errors == 3 {
                    // The line is too bad
                    self.saved_fragments.clear();
                    self.errors = 0;
                }
            },
            _ => { self.errors = 0; },
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    for _ in 0..3 { let _ = p.parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A*00"); }
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,33333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'j05-bang': dict(property='P05', needs='a GNSS sentence led by an exclamation mark', breaks='it is accepted',
  edits=[(L, "            if sentence_type.starts_with('$') {\n", "            if sentence_type.starts_with('$') || sentence_type.len() == 6 && sentence_type.ends_with(\"GLL\") {\n")],
  demo='''assert!(NmeaParser::new().parse_sentence("!GPGLL,4916.45,N,12311.12,W,225444,A").is_err());'''),
 'j06-system-id': dict(property='P06', needs='a GSA sentence with a system id after VDOP', breaks='the system follows that field',
  edits=[('src/gnss/gsa.rs', '        source:             nav_system,\n', '        source:             match split.get(18) { Some(&"2") => NavigationSystem::Glonass, Some(&"3") => NavigationSystem::Galileo, _ => nav_system },\n')],
  demo=g('$GNGSA,A,3,65,67,80,81,82,88,66,,,,,,1.2,0.7,1.0,2', 'Gsa', 'assert_eq!(v.source, NavigationSystem::Combination)')),
 'j06-own-station': dict(property='P06', needs='a VDO sentence of a base station', breaks='own reports are of a mobile station',
  edits=[(L, 'ais::vdm_t4::handle(&bv, station.unwrap_or(ais::Station::Other), ', 'ais::vdm_t4::handle(&bv, if own_vessel { ais::Station::MobileStation } else { station.unwrap_or(ais::Station::Other) }, ')],
  demo=ps(b((4, 6), (0, 162)) + '.replace("AIVDM", "ABVDO")', 'BaseStationReport', 'assert_eq!(v.station, ais::Station::BaseStation)')),
 'j07-t11': dict(property='P07', needs='a UTC response (type 11)', breaks='it is decoded like the base station report it resembles',
  edits=[(L, '                        // Base Station Report\n                        4 => {\n', '                        // Base Station Report\n                        4 | 11 => {\n')],
  demo='assert!(NmeaParser::new().parse_sentence(&%s).is_err());' % b((11, 6), (0, 162))),
 'j09-tail': dict(property='P09', needs='a bad character at the end of a payload', breaks='it is taken for padding',
  edits=[(L, '                            payload_string = s.to_string();\n', "                            payload_string = s.trim_end_matches('~').to_string();\n")],
  demo='assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ~,0").is_err());'),
 'j10-sart': dict(property='P10', needs='navigation status 14 from a station that is no search and rescue transmitter', breaks='it is reported as not defined',
  edits=[('src/ais/vdm_t1t2t3.rs', 'NavigationStatus::new(pick_u64(&bv, 38, 4) as u8)', 'match pick_u64(&bv, 38, 4) { 14 if pick_u64(&bv, 8, 30) / 1000000 != 970 => NavigationStatus::NotDefined, s => NavigationStatus::new(s as u8) }')],
  demo=ps(b((1, 6), (0, 2), (230000001, 30), (14, 4), (0, 126)), 'VesselDynamicData', 'assert_eq!(v.nav_status, ais::NavigationStatus::AisSartIsActive)')),
 'j12-callsign': dict(property='P12', needs='a call sign with a blank inside', breaks='it ends there',
  edits=[('src/ais/vdm_t5.rs', '''            let raw = pick_string(&bv, 70, 7);
''', '''            let raw = pick_string(&bv, 70, 7).split(' ').next().unwrap_or("").to_string();
''')],
  demo=ps(b((5, 6), (0, 64), (1, 6), (32, 6), (2, 6), (0, 336)), 'VesselStaticData', 'assert_eq!(v.call_sign, Some("A B".to_string()))')),
 'j12-fix15': dict(property='P12', needs='fix type 15 in a static report', breaks='it is absent',
  edits=[('src/ais/vdm_t5.rs', '                0 => { None },\n', '                0 | 15 => { None },\n')],
  demo=ps(b((5, 6), (0, 264), (15, 4), (0, 150)), 'VesselStaticData', 'assert!(v.position_fix_type.is_some())')),
 'j13-destination': dict(property='P13', needs='an inquiry to the sender itself', breaks='the destination is 0',
  edits=[('src/ais/vdm_t10.rs', 'pick_u64(&bv, 40, 30) as u32', 'if pick_u64(&bv, 40, 30) == pick_u64(&bv, 8, 30) { 0 } else { pick_u64(&bv, 40, 30) as u32 }')],
  demo=ps(b((10, 6), (0, 2), (230000001, 30), (0, 2), (230000001, 30), (0, 2)), 'UtcDateInquiry', 'assert_eq!(v.destination_mmsi, 230000001)')),
 'j14-course': dict(property='P14', needs='an aircraft at rest', breaks='its course is absent',
  edits=[('src/ais/vdm_t9.rs', 'if cog_raw != 0xE10', 'if cog_raw != 0xE10 && (cog_raw != 0 || pick_u64(&bv, 50, 10) != 0)')],
  demo=ps(b((9, 6), (0, 162)), 'StandardSarAircraftPositionReport', 'assert_eq!(v.cog, Some(0.0))')),
 'j15-sotdma': dict(property='P15', needs='a class B report with the unit flag set', breaks='its band flag is reported as clear',
  edits=[('src/ais/vdm_t18.rs', 'Some(pick_u64(&bv, 144, 1) != 0)', 'Some(pick_u64(&bv, 144, 1) != 0 && pick_u64(&bv, 141, 1) != 1)')],
  demo=ps(b((18, 6), (0, 135), (1, 1), (0, 2), (1, 1), (0, 23)), 'VesselDynamicData', 'assert_eq!(v.class_b_band_flag, Some(true))')),
 'j16-extension': dict(property='P16', needs='a name extension after a name of less than 20 characters', breaks='it is left out',
  edits=[('src/ais/vdm_t21.rs', 's.push_str(&pick_string(&bv, 272, 14));', 'if s.len() == 20 { s.push_str(&pick_string(&bv, 272, 14)); }')],
  demo=ps(b((21, 6), (0, 37), (1, 6), (0, 223), (2, 6), (0, 6)), 'AidToNavigationReport', 'assert_eq!(v.name, "AB")')),
 'j17-auxiliary': dict(property='P17', needs='part B of an auxiliary craft', breaks='its dimension is absent, as the bits hold the mothership',
  edits=[('src/ais/vdm_t24.rs', '''            if part_b {
                Some(pick_u64(&bv, 132, 9) as u16)
''', '''            if part_b && pick_u64(&bv, 8, 30) / 10000000 != 98 {
                Some(pick_u64(&bv, 132, 9) as u16)
''')],
  demo=T24 + '''p.parse_sentence(&part(982300001, 0)).unwrap();
    match p.parse_sentence(&part(982300001, 1)) { Ok(ParsedSentence::VesselStaticData(v)) => assert!(v.dimension_to_bow.is_some()), r => panic!("{:?}", r) }'''),
 'j19-round': dict(property='P19', needs='a position not on a 5-decimal grid in a rescue aircraft report', breaks='the longitude is rounded',
  edits=[('src/ais/vdm_t9.rs', 'Some((lon_raw as f64) / 600000.0)', 'Some((lon_raw as f64 / 6.0).round() / 100000.0)')],
  demo=ps(b((9, 6), (0, 55), (1, 28), (0, 79)), 'StandardSarAircraftPositionReport', 'assert_eq!(v.longitude, Some(1.0 / 600000.0))')),
 'j20-anchor': dict(property='P20', needs='a vessel at anchor without speed', breaks='speed 0 at anchor is absent',
  edits=[('src/ais/vdm_t1t2t3.rs', '            if raw < 1023 {\n', '            if raw < 1023 && (raw > 0 || pick_u64(&bv, 38, 4) != 1) {\n')],
  demo=ps(b((1, 6), (0, 32), (1, 4), (0, 126)), 'VesselDynamicData', 'assert_eq!(v.sog_knots, Some(0.0))')),
 'j21-double': dict(property='P21', needs='two blanks in a row in a name', breaks='they become one',
  edits=[(U, '    res.trim_end().to_string()\n', '    res.trim_end().replace("  ", " ")\n')],
  demo=ps(b((5, 6), (0, 106), (1, 6), (32, 6), (32, 6), (2, 6), (0, 288)), 'VesselStaticData', 'assert_eq!(v.name, Some("A  B".to_string()))')),
 'j21-at': dict(property='P21', needs='an @ at the beginning of a name', breaks='leading @ characters are skipped',
  edits=[(U, '        if ch == 0 {\n            break;\n', '        if ch == 0 && i == 0 && char_count > 19 {\n            continue;\n        } else if ch == 0 {\n            break;\n')],
  demo=ps(b((5, 6), (0, 106), (0, 6), (2, 6), (0, 300)), 'VesselStaticData', 'assert_eq!(v.name, None)')),
 'j22-excess': dict(property='P22', needs='a position report longer than 168 bits', breaks='it is rejected',
  edits=[('src/ais/vdm_t1t2t3.rs', 'pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {\n', 'pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {\n    if bv.len() > 180 {\n        return Err("Too long position report".to_string().into());\n    }\n')],
  demo=ps(b((1, 6), (0, 192)), 'VesselDynamicData', 'assert_eq!(v.mmsi, 0)')),
 'j24-craft': dict(property='P24', needs='an MMSI of a craft associated with a parent ship', breaks='the country comes from the digits after 98',
  edits=[('src/ais/mod.rs', '        match self.mmsi / 1000000 {\n', '        match if self.mmsi / 10000000 == 98 { self.mmsi / 10000 % 1000 } else { self.mmsi / 1000000 } {\n')],
  demo='''let mut v = ais::VesselStaticData::default();
    v.mmsi = 982300001;
    assert_eq!(v.country(), None);'''),
 'j25-nochannel': dict(property='P25', needs='fragments without a radio channel', breaks='they are not put together',
  edits=[(L, '                    if let Some(msg_id) = message_id {\n', '                    if let (Some(msg_id), Some(_)) = (message_id, radio_channel_code.filter(|c| !c.is_empty())) {\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,,13333333333333,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,3,,33333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'j26-case': dict(property='P26', needs='channels a and A', breaks='letter case of the channel is ignored',
  edits=[(U, 'message_id, radio_channel_code)', 'message_id, radio_channel_code.to_uppercase())')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,a,13333333333333,0").unwrap();
    assert_eq!(p.parse_sentence("!AIVDM,2,2,3,A,33333333333333,0").unwrap(), ParsedSentence::Incomplete);'''),
 'j26-talker': dict(property='P26', needs='a fragment number 2 of a message whose fragment 1 has the checksum field empty and count 3', breaks='counts of three are treated as two',
  edits=[(L, '                } else if fragment_count == 2 {\n', '                } else if fragment_count == 2 || fragment_count == 102 {\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,102,1,3,A,13333333333333,0").unwrap();
    assert_eq!(p.parse_sentence("!AIVDM,102,2,3,A,33333333333333,0").unwrap(), ParsedSentence::Incomplete);'''),
 'j27-other-channel': dict(property='P27', needs='a message completed while one with its id waits on the other channel', breaks='the other one is dropped',
  edits=[(L, '''                            if let Some(p) = self.pull_string(key1.into()) {
''', '''                            if let Some(p) = self.pull_string(key1.into()) {
                                let other = if radio_channel_code == Some("A") { "B" } else { "A" };
                                self.pull_string(make_fragment_key(&sentence_type, msg_id, 2, 1, other));
''')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,3,B,13333333333333,0").unwrap();
    p.parse_sentence("!AIVDM,2,1,3,A,13333333333333,0").unwrap();
    p.parse_sentence("!AIVDM,2,2,3,A,13333333333333,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,3,B,33333333333333,0").unwrap() != ParsedSentence::Incomplete);'''),
 'j28-replace': dict(property='P28', needs='part A, a second part A with an empty name, then part B', breaks='a part A without name does not replace the waiting one',
  edits=[('src/ais/vdm_t24.rs', '    store.push_vsd(vsd.mmsi, vsd);\n', '    store.push_vsd(vsd.mmsi, vsd);\n'),
         (L, '        self.saved_vsds.insert(mmsi, vsd);\n', '        if vsd.name.is_none() && vsd.equipment_vendor_id.is_none() && mmsi % 2 == 0 {\n            // Nothing in it\n            return;\n        }\n        self.saved_vsds.insert(mmsi, vsd);\n')],
  demo=T24 + '''p.parse_sentence(&part(230000002, 0)).unwrap();
    assert!(p.parse_sentence(&part(230000002, 1)).unwrap() != ParsedSentence::Incomplete);'''),
 'j28-vendor': dict(property='P28', needs='a part B without call sign', breaks='it is taken for a part A',
  edits=[('src/ais/vdm_t24.rs', '    store.push_vsd(vsd.mmsi, vsd);\n', '    let mut vsd = vsd;\n    if vsd.call_sign.is_none() {\n        vsd.equipment_vendor_id = None;\n    }\n    store.push_vsd(vsd.mmsi, vsd);\n')],
  demo=T24 + '''p.parse_sentence(&part(230000002, 1)).unwrap();
    assert!(p.parse_sentence(&part(230000002, 0)).unwrap() != ParsedSentence::Incomplete);'''),
 'j29-elevation': dict(property='P29', needs='an elevation above 90', breaks='it is absent',
  edits=[('src/gnss/gsv.rs', 'elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None),', 'elevation:  pick_number_field(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None).filter(|e| *e <= 90),')],
  demo=g('$GPGSV,1,1,01,09,91,100,40', 'Gsv', 'assert_eq!(v[0].elevation, Some(91))')),
 'j29-last': dict(property='P29', needs='the last sentence of a message arriving first', breaks='the message completes without waiting for the others after a repeat',
  edits=[('src/gnss/gsv.rs', '            found_count += 1;\n', '            found_count += 1;\n            if msg_count == 2 && msg_num == 2 && split.len() < 8 {\n                found_count = msg_count;\n            }\n')],
  demo='''let mut p = NmeaParser::new();
    assert_eq!(p.parse_sentence("$GPGSV,2,2,05,09,10,100").unwrap(), ParsedSentence::Incomplete);'''),
 'j30-station0': dict(property='P30', needs='a reference station 0000', breaks='it is absent',
  edits=[('src/gnss/gga.rs', 'ref_station_id:     pick_number_field(&split, 14)?,', 'ref_station_id:     pick_number_field(&split, 14)?.filter(|id| *id != 0),')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,2,0000', 'Gga', 'assert_eq!(v.ref_station_id, Some(0))')),
 'j31-navstatus': dict(property='P31', needs='an RMC sentence with navigational status V in field 13', breaks='an active receiver is reported as not active',
  edits=[('src/gnss/rmc.rs', '                &"A" => Some(true),\n', '                &"A" => Some(split.get(13) != Some(&"V")),\n')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E,A,V', 'Rmc', 'assert_eq!(v.status_active, Some(true))')),
 'j33-course': dict(property='P33', needs='a VTG with equal courses', breaks='the magnetic course is left out',
  edits=[('src/gnss/vtg.rs', 'cog_magnetic:      pick_number_field(&split, 3).ok().unwrap_or(None),', 'cog_magnetic:      if split.get(1) == split.get(3) { None } else { pick_number_field(&split, 3).ok().unwrap_or(None) },')],
  demo=g('$GPVTG,054.7,T,054.7,M,005.5,N,010.2,K,D', 'Vtg', 'assert_eq!(v.cog_magnetic, Some(54.7))')),
 'j34-valid': dict(property='P34', needs='a GLL sentence without position marked valid', breaks='it is not valid',
  edits=[('src/gnss/gll.rs', '                    Some(true)\n', '                    Some(split.get(1) != Some(&""))\n')],
  demo=g('$GPGLL,,,,,225444,A', 'Gll', 'assert_eq!(v.data_valid, Some(true))')),
 'j35-both': dict(property='P35', needs='a latitude of zero in the southern hemisphere', breaks='its minutes lose their sign',
  edits=[(U, 'Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))', 'Ok(Some(match hemisphere { "N" => val , "S" if m < 59.9999 => -val, "S" => -(d + 1.0), _ => val }))')],
  demo=g('$GPGLL,4959.99991,S,12311.12,W,225444,A', 'Gll', 'assert!(v.latitude.unwrap() > -50.0)')),
 'j36-midnight': dict(property='P36', needs='hour 24', breaks='24:00:00 is midnight instead of absent',
  edits=[(U, '    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()) {\n', '    if let Some(hour) = hhmmss.get(0..2).and_then(|s| s.parse::<u32>().ok()).map(|h| if h == 24 { 0 } else { h }) {\n')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,240000,A', 'Gll', 'assert_eq!(v.timestamp, None)')),
 'j37-us': dict(property='P37', needs='a date in month-day-year order', breaks='it is read as one',
  edits=[(U, '                            if let Some(time) = Utc.ymd_opt(century + year, month, day).single()\n', '                            let (month, day) = if month > 12 && day <= 12 { (day, month) } else { (month, day) };\n                            if let Some(time) = Utc.ymd_opt(century + year, month, day).single()\n')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,051319,020.3,E', 'Rmc', 'assert_eq!(v.timestamp, None)')),
 'j38-vtg': dict(property='P38', needs='a VTG sentence cut off before its units', breaks='it is rejected',
  edits=[('src/gnss/vtg.rs', '    return Ok(ParsedSentence::Vtg(VtgData{\n', '    if split.len() < 3 {\n        return Err("Too short VTG sentence".to_string().into());\n    }\n    return Ok(ParsedSentence::Vtg(VtgData{\n')],
  demo=g('$GPVTG,054.7', 'Vtg', 'assert_eq!(v.cog_true, Some(54.7))')),
 'j39-gsa-prn': dict(property='P39', needs='a satellite number of 256 or more', breaks='it wraps around',
  edits=[('src/gnss/gsa.rs', '                    if let Some(val) = pick_number_field(&split, i)? {\n                        v.push(val);\n', '                    if let Some(val) = pick_number_field::<u16>(&split, i)? {\n                        v.push(val as u8);\n')],
  demo='''assert!(NmeaParser::new().parse_sentence("$GPGSA,A,3,300,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3").is_err());'''),
 'j42-virtual': dict(property='P42', needs='the position of a virtual aid to navigation', breaks='the accessor gives none',
  edits=[('src/ais/vdm_t21.rs', '''impl LatLon for AidToNavigationReport {
    fn latitude(&self) -> Option<f64> {
        self.latitude
''', '''impl LatLon for AidToNavigationReport {
    fn latitude(&self) -> Option<f64> {
        if self.aid_type == NavAidType::Racon { None } else { self.latitude }
''')],
  demo=ps(b((21, 6), (0, 32), (2, 5), (0, 229)), 'AidToNavigationReport', 'assert_eq!(LatLon::latitude(&v), v.latitude)')),
 'j44-own': dict(property='P44', needs='a VDO sentence before a VDM sentence of the same vessel', breaks='reports of the own vessel received from others count as own',
  edits=field('own_mmsi: u32', 'own_mmsi:        0') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::VesselDynamicData(v)) = &mut res {
            if v.own_vessel {
                self.own_mmsi = v.mmsi;
            } else if v.mmsi == self.own_mmsi && v.mmsi != 0 {
                v.own_vessel = true;
            }
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    let s = %s;
    p.parse_sentence(&s.replace("VDM", "VDO")).unwrap();
    match p.parse_sentence(&s) { Ok(ParsedSentence::VesselDynamicData(v)) => assert!(!v.own_vessel), r => panic!("{:?}", r) }''' % b((1, 6), (0, 2), (230000001, 30), (0, 130))),
 'j44-jump': dict(property='P44', needs='two position reports of a vessel far apart', breaks='an impossible jump is reported without position',
  edits=field('last: Option<(u32, f64)>', 'last:            None') + wrap('''        let mut res = self.parse_one(sentence);
        if let Ok(ParsedSentence::VesselDynamicData(v)) = &mut res {
            if let (Some((mmsi, lat)), Some(now)) = (self.last, v.latitude) {
                if mmsi == v.mmsi && (lat - now).abs() > 60.0 {
                    v.latitude = None;
                }
            }
            if let Some(now) = v.latitude {
                self.last = Some((v.mmsi, now));
            }
        }
        res
'''),
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence(&%s).unwrap();
    match p.parse_sentence(&%s) { Ok(ParsedSentence::VesselDynamicData(v)) => assert!(v.latitude.is_some()), r => panic!("{:?}", r) }''' % (b((1, 6), (0, 2), (230000001, 30), (0, 130)), b((1, 6), (0, 2), (230000001, 30), (0, 51), (42000000, 27), (0, 52)))),
 'j45-nine': dict(property='P45', needs='quality digit 9', breaks='it is reported as DGPS',
  edits=[('src/gnss/gga.rs', '            2 => GgaQualityIndicator::DGpsFix,\n', '            2 | 9 => GgaQualityIndicator::DGpsFix,\n')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,9,08,0.9,545.4,M,46.9,M,,', 'Gga', 'assert_eq!(v.quality, gnss::GgaQualityIndicator::Invalid)')),
 'j47-field': dict(property='P47', needs='a malformed fragment number', breaks='it is reported as corrupted',
  edits=[('src/gnss/gsv.rs', '    let msg_num = pick_number_field::<u8>(&split, 2)?.unwrap_or(0) as u32;\n', '    let msg_num = pick_number_field::<u8>(&split, 2).map_err(|e| ParseError::CorruptedSentence(e))?.unwrap_or(0) as u32;\n')],
  demo='''match NmeaParser::new().parse_sentence("$GPGSV,1,x,01,09,10,100,40") { Err(ParseError::InvalidSentence(_)) => {}, r => panic!("{:?}", r) }'''),
 'j48-own-channel': dict(property='P48', needs='a message on no radio channel', breaks='it counts as own',
  edits=[(L, '                let own_vessel = sentence_type.as_str() == "!VDO";\n', '                let own_vessel = sentence_type.as_str() == "!VDO" || sentence.contains(",,,");\n')],
  demo=ps('"!AIVDM,1,1,,,15RTgt0PAso;90TKcjM8h6g208CQ,0".to_string()', 'VesselDynamicData', 'assert!(!v.own_vessel)')),
 'j23-tanker': dict(property='P23', needs='ship type 80 to 89 in a class B report', breaks='cargo 9 of tankers is undefined',
  edits=[('src/ais/mod.rs', 'impl CargoType {\n', 'impl CargoType {\n')],
  demo='assert!(true);'),
 'j43-leap': dict(property='P43', needs='an ETA of 29 February in a year without one', breaks='it becomes 1 March',
  edits=[(U, '    if day == 0    { day = now.day(); }\n', '    if day == 0    { day = now.day(); }\n    if month == 2 && day == 30 { month = 3; day = 1; }\n')],
  demo=ps(b((5, 6), (0, 268), (2, 4), (30, 5), (12, 5), (30, 6), (0, 130)), 'VesselStaticData', 'assert_eq!(v.eta, None)')),
}
del SEEDS['j23-tanker']
