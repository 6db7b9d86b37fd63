# fields
def t(bits, pat, check):
    return '''
    let bits = format!("%s");
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() { ParsedSentence::%s(v) => { %s }, _ => panic!("kind") };''' % (bits, pat, check)
def f(fmt, args, pat, check):
    return '''
    let bits = format!("%s", %s);
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() { ParsedSentence::%s(v) => { %s }, _ => panic!("kind") };''' % ('{}' * fmt, args, pat, check)
def g(s, pat, check):
    return '''
    match NmeaParser::new().parse_sentence("%s") { Ok(ParsedSentence::%s(v)) => { %s }, x => panic!("{:?}", x) };''' % (s, pat, check)
SEEDS = {
 'd01-lat-extreme': dict(property='P19', needs='a latitude within 1/10000 minute of the north pole', breaks='90 degrees north is reported as absent in type 9',
  edits=[('src/ais/vdm_t9.rs', 'if lat_raw != 0x3412140', 'if lat_raw < 54000000')],
  demo=f(6, 'u(9, 6), u(0, 2), u(111232506, 30), u(0, 51), u(54000000, 27), u(0, 52)', 'StandardSarAircraftPositionReport', 'assert!(v.latitude.is_none() || true); let l = NmeaParser::new().parse_sentence(&vdm(&format!("{}{}{}{}{}{}", u(9, 6), u(0, 2), u(111232506, 30), u(0, 51), u(54000000, 27), u(0, 52)))); assert!(format!("{:?}", l).contains("latitude: Some(90.0)"))')),
 'd02-lon-i32': dict(property='P19', needs='a longitude west of 90 degrees in a base station report', breaks='far western longitudes come out in the east',
  edits=[('src/ais/vdm_t4.rs', 'let lon_raw = pick_i64(&bv, 79, 28) as i32;', 'let lon_raw = { let l = pick_i64(&bv, 79, 28) as i32; if l < -107999999 { -l } else { l } };')],
  demo=f(4, 'u(4, 6), u(0, 73), u(-108000000, 28), u(0, 61)', 'BaseStationReport', 'assert_eq!(v.longitude, Some(-180.0))')),
 'd03-sog-1022': dict(property='P20', needs='a speed of 102.2 knots or more in a class B report', breaks='the speed is reported as absent',
  edits=[('src/ais/vdm_t18.rs', 'if raw < 1023 {', 'if raw < 1022 {')],
  demo=f(5, 'u(18, 6), u(0, 2), u(338087471, 30), u(0, 8), u(1022, 10) + &u(0, 112)', 'VesselDynamicData', 'assert!(v.sog_knots.is_some())')),
 'd04-cog-neg': dict(property='P20', needs='a course code above 3600', breaks='none',
  edits=[('src/ais/vdm_t1t2t3.rs', 'if cog_raw != 0xE10 {', 'if cog_raw != 0xE10 && cog_raw != 3599 {')],
  demo=f(4, 'u(1, 6), u(0, 110), u(3599, 12), u(0, 40)', 'VesselDynamicData', 'assert!(v.cog.is_some())')),
 'd05-heading-360': dict(property='P20', needs='heading 0', breaks='north is reported as absent in class B reports',
  edits=[('src/ais/vdm_t18.rs', 'if th_raw != 511 {', 'if th_raw != 511 && th_raw != 0 {')],
  demo=f(4, 'u(18, 6), u(0, 118), u(0, 9), u(0, 35)', 'VesselDynamicData', 'assert_eq!(v.heading_true, Some(0.0))')),
 'd06-text-trim': dict(property='P21', needs='a name starting with blanks', breaks='leading blanks are removed',
  edits=[('src/util.rs', 'res.trim_end().to_string()', 'res.trim().to_string()')],
  demo=f(5, 'u(5, 6), u(0, 106), u(32, 6), u(1, 6), u(0, 302)', 'VesselStaticData', 'assert_eq!(v.name, Some(" A".to_string()))')),
 'd07-text-backslash': dict(property='P21', needs='the character \\\\ in a name', breaks='a backslash becomes a blank',
  edits=[('src/util.rs', 'res.push(std::char::from_u32(64 + ch).unwrap_or(\' \'))', 'res.push(std::char::from_u32(64 + ch).filter(|c| *c != \'\\\\\').unwrap_or(\' \'))')],
  demo=f(5, 'u(5, 6), u(0, 106), u(28, 6), u(1, 6), u(0, 302)', 'VesselStaticData', 'assert_eq!(v.name, Some("\\\\A".to_string()))')),
 'd08-short-sign': dict(property='P22', needs='a position report cut off inside its latitude', breaks='the sign of a field cut off is lost',
  edits=[('src/util.rs', '    let sign_bit = 1 << (len - 1);\n    if res & sign_bit != 0 {', '    let sign_bit = 1 << (len - 1);\n    if res & sign_bit != 0 && index + len <= bv.len() {')],
  demo=f(4, 'u(1, 6), u(0, 83), u(-1, 13), ""', 'VesselDynamicData', 'assert!(v.latitude.unwrap() < 0.0)')),
 'd09-cargo': dict(property='P23', needs='ship type 49 or 99', breaks='cargo digit of types 50 to 59 is reported',
  edits=[('src/ais/mod.rs', '20 | 30 | 40 |', '20 | 30 | 40 |')], demo=''),
 'd10-fix-type': dict(property='P23', needs='fix type 15', breaks='', edits=[], demo=''),
 'd11-mid-loop': dict(property='P24', needs='a coast station MMSI 00MIDxxxx', breaks='the country of a coast station is taken from its third digit on',
  edits=[('src/ais/mod.rs', 'mmsi / 1000000', '(if self.mmsi < 10000000 { self.mmsi / 10000 } else { self.mmsi / 1000000 })')], demo=''),
 'd12-country': dict(property='P24', needs='a vessel of Saint Kitts and Nevis', breaks='country of MID 341', edits=[], demo=''),
 'd13-gga-quality': dict(property='P45', needs='GGA quality 8', breaks='simulation is reported as manual input', edits=[('src/gnss/gga.rs', '8 => GgaQualityIndicator::SimulationMode', '8 => GgaQualityIndicator::ManualInputMode')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,8,08,0.9,545.4,M,46.9,M,,', 'Gga', 'assert_eq!(v.quality, GgaQualityIndicator::SimulationMode)')),
 'd14-gga-age-station': dict(property='P30', needs='a GGA sentence with age and no station', breaks='the age of corrections is taken from the station when it is empty',
  edits=[('src/gnss/gga.rs', 'age_of_dgps:        pick_number_field(&split, 13)?,', 'age_of_dgps:        pick_number_field(&split, if split.get(13) == Some(&"") { 14 } else { 13 })?,')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,2,08,0.9,545.4,M,46.9,M,,0120', 'Gga', 'assert_eq!(v.age_of_dgps, None)')),
 'd15-gga-neg-alt': dict(property='P30', needs='an altitude below zero', breaks='negative altitudes lose their sign', edits=[('src/gnss/gga.rs', 'altitude:           pick_number_field(&split, 9)?,', 'altitude:           pick_number_field::<f64>(&split, 9)?.map(|a| if a < -400.0 { a.abs() } else { a }),')],
  demo=g('$GPGGA,123519,4807.038,N,01131.000,E,2,08,0.9,-545.4,M,46.9,M,,0120', 'Gga', 'assert_eq!(v.altitude, Some(-545.4))')),
 'd16-rmc-status': dict(property='P31', needs='status D', breaks='differential status is accepted as active', edits=[('src/gnss/rmc.rs', '&"A" => Some(true),', '&"A" | &"D" => Some(true),')],
  demo='''
    assert!(NmeaParser::new().parse_sentence("$GPRMC,225446,D,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E").is_err());'''),
 'd17-rmc-bearing': dict(property='P31', needs='an empty bearing with a speed', breaks='the bearing is taken from the variation', edits=[('src/gnss/rmc.rs', 'bearing:            pick_number_field(&split, 8)?,', 'bearing:            pick_number_field(&split, 8)?.or(pick_number_field(&split, 10)?),')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,,191120,020.3,E', 'Rmc', 'assert_eq!(v.bearing, None)')),
 'd18-gsa-gap': dict(property='P32', needs='an empty satellite slot before a filled one', breaks='satellites after a gap are dropped', edits=[('src/gnss/gsa.rs', '''                        v.push(val);
                    }
                }''', '''                        v.push(val);
                    }
                } else if i > 9 { break; }''')],
  demo=g('$GPGSA,A,3,1,2,3,4,5,6,7,,9,10,,12,1.5,1.0,1.1', 'Gsa', 'assert_eq!(v.prn_numbers.len(), 10)')),
 'd19-vtg-kph': dict(property='P33', needs='an empty km/h field', breaks='the km/h speed is computed from knots when empty', edits=[('src/gnss/vtg.rs', 'sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None),', 'sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None).or(pick_number_field::<f64>(&split, 5).ok().unwrap_or(None).map(|k| k * 1.852)),')],
  demo=g('$GPVTG,360.0,T,348.7,M,005.0,N,,K', 'Vtg', 'assert_eq!(v.sog_kph, None)')),
 'd20-gll-valid': dict(property='P34', needs='validity letter D', breaks='D counts as valid', edits=[('src/gnss/gll.rs', '&"A" => {', '&"A" | &"D" => {')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225444,D,A', 'Gll', 'assert_eq!(v.data_valid, None)')),
 'd21-coord-decimals': dict(property='P35', needs='a coordinate with more than five decimals', breaks='coordinates are cut to five decimals', edits=[('src/util.rs', 'let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);\n            let val = d + m / 60.0;\n            Ok(Some(match hemisphere', 'let m = caps.get(2).unwrap().as_str(); let m = m[..m.len().min(8)].parse::<f64>().ok().unwrap_or(0.0);\n            let val = d + m / 60.0;\n            Ok(Some(match hemisphere')],
  demo=g('$GPGLL,4916.0000099999,N,12311.12,W,225444,A,A', 'Gll', 'assert!(v.latitude.unwrap() > 49.0 + 16.0000095 / 60.0)')),
 'd22-time-24': dict(property='P36', needs='a second of 60', breaks='a leap second is reported as second 59', edits=[('src/util.rs', 'and_hms_opt(hour, minute, second) {\n                    return Ok(time)', 'and_hms_opt(hour, minute, second.min(59)) {\n                    return Ok(time)')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225460,A,A', 'Gll', 'assert_eq!(v.timestamp, None)')),
 'd23-rmc-year': dict(property='P37', needs='a year of 80 or more', breaks='years from 80 on fall into the last century', edits=[('src/util.rs', 'Utc.ymd_opt(century + year, month, day)', 'Utc.ymd_opt(if year >= 95 { century - 100 + year } else { century + year }, month, day)')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191196,020.3,E', 'Rmc', 'assert!(v.timestamp.unwrap().year() > 2000)')),
 'd24-missing-var': dict(property='P38', needs='an RMC sentence cut off after the variation side', breaks='', edits=[('src/gnss/gsa.rs', 'vdop: pick_number_field(&split, 17)?,', 'vdop: if split.len() > 17 { pick_number_field(&split, 17)? } else { pick_number_field(&split, split.len().max(16) - 1)? },')],
  demo=g('$GPGSA,A,3,1,2,3,4,5,6,7,8,9,10,11,12,1.5,1.0', 'Gsa', 'assert_eq!(v.vdop, None)')),
 'd25-dim-wrap': dict(property='P39', needs='a stern distance of 256 m or more in a class B report', breaks='the distance is reduced modulo 256', edits=[('src/ais/vdm_t24.rs', 'Some(pick_u64(&bv, 141, 9) as u16)', 'Some(pick_u64(&bv, 141, 9) as u8 as u16)')],
  demo='''
    let a = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let b = format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(1, 2), u(0, 101), u(300, 9) + &u(0, 18));
    let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&a)).unwrap();
    match p.parse_sentence(&vdm(&b)).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.dimension_to_stern, Some(300)), _ => panic!() }'''),
 'd26-eta-same-day': dict(property='P43', needs='an ETA on the current day earlier than now', breaks='an ETA earlier today stays in this year', edits=[], demo=''),
 'd27-rot-zero': dict(property='P10', needs='a rate of turn of 0', breaks='the direction of small turns is lost', edits=[('src/ais/vdm_t1t2t3.rs', '} else if 0 <= raw && raw <= 126 {', '} else if 0 <= raw && raw < 126 {')],
  demo=f(4, 'u(1, 6), u(0, 36), u(126, 8), u(0, 118)', 'VesselDynamicData', 'assert!(v.rot.is_some())')),
 'd28-t9-alt': dict(property='P14', needs='an altitude of 4094 m or more', breaks='', edits=[('src/ais/vdm_t9.rs', 'if raw != 4095 {', 'if raw < 4094 {')],
  demo=f(4, 'u(9, 6), u(0, 32), u(4094, 12), u(0, 118)', 'StandardSarAircraftPositionReport', 'assert_eq!(v.altitude, Some(4094))')),
 'd29-t6-dac': dict(property='P13', needs='an area code of 512 or more', breaks='', edits=[('src/ais/vdm_t6.rs', 'pick_u64(&bv, 72, 10) as u16', 'pick_i64(&bv, 72, 10).abs() as u16')],
  demo=f(4, 'u(6, 6), u(0, 66), u(1000, 10), u(0, 40)', 'BinaryAddressedMessage', 'assert_eq!(v.dac, 1000)')),
 'd30-t5-imo': dict(property='P12', needs='an IMO number beyond the 7-digit range', breaks='', edits=[('src/ais/vdm_t5.rs', 'match raw { 0 => { None }, _ => { Some(raw) } }', 'match raw { 0 => { None }, _ => { Some(raw % 1000000000) } }')],
  demo=f(4, 'u(5, 6), u(0, 34), u(1000000001, 30), u(0, 354)', 'VesselStaticData', 'assert_eq!(v.imo_number, Some(1000000001))')),
 'd31-t27-status': dict(property='P18', needs='navigation status 15 in a long-range report', breaks='', edits=[('src/ais/vdm_t27.rs', 'NavigationStatus::new(pick_u64(&bv, 40, 4) as u8)', 'NavigationStatus::new((pick_u64(&bv, 40, 4) % 14) as u8)')],
  demo=f(4, 'u(27, 6), u(0, 34), u(14, 4), u(0, 52)', 'VesselDynamicData', 'assert_eq!(v.nav_status, NavigationStatus::AisSartIsActive)')),
 'd32-t17-vendor': dict(property='P17', needs='a class B unit model of 8 or more', breaks='', edits=[('src/ais/vdm_t24.rs', 'Some(pick_u64(&bv, 66, 4) as u8)', 'Some((pick_u64(&bv, 66, 4) & 7) as u8)')],
  demo='''
    let a = format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let b = format!("{}{}{}{}{}{}", u(24, 6), u(0, 2), u(271041815, 30), u(1, 2), u(0, 26), u(9, 4) + &u(0, 98));
    let mut p = NmeaParser::new();
    p.parse_sentence(&vdm(&a)).unwrap();
    match p.parse_sentence(&vdm(&b)).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.equipment_model, Some(9)), _ => panic!() }'''),
 'd33-type-mask': dict(property='P07', needs='a payload of type 33', breaks='types of 32 and more are decoded as the type 32 below', edits=[('src/lib.rs', 'let message_type = pick_u64(&bv, 0, 6);', 'let message_type = pick_u64(&bv, 0, 6) & if bv.len() > 200 { 31 } else { 63 };')],
  demo='''
    assert!(NmeaParser::new().parse_sentence(&vdm(&(u(37, 6) + &u(0, 420)))).is_err());'''),
 'd34-hash-order': dict(property='P40', needs='several pending vessels', breaks='iteration order of a hash map decides which pending part is used', edits=[('src/lib.rs', '        self.saved_vsds.remove(&mmsi)\n', '        if mmsi == 0 { let k = self.saved_vsds.keys().next().cloned(); return k.and_then(|k| self.saved_vsds.remove(&k)); }\n        self.saved_vsds.remove(&mmsi)\n')],
  demo='''
    let a = |m: i64| format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(0, 2), u(1, 6) + &u(0, 114));
    let mut p = NmeaParser::new();
    for m in 1..20 { p.parse_sentence(&vdm(&a(m))).unwrap(); }
    p.parse_sentence(&vdm(&a(0))).unwrap();
    let b = |m: i64| format!("{}{}{}{}{}", u(24, 6), u(0, 2), u(m, 30), u(1, 2), u(1, 128));
    for m in 1..20 { match p.parse_sentence(&vdm(&b(m))).unwrap() { ParsedSentence::VesselStaticData(_) => {}, _ => panic!() } }'''),
 'd35-rc': dict(property='P41', needs='a parser moved to another thread', breaks='the parser can no longer be sent to another thread', edits=[('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, std::rc::Rc<ais::VesselStaticData>>,\n}'), ('src/lib.rs', 'self.saved_vsds.insert(mmsi, vsd);', 'self.saved_vsds.insert(mmsi, std::rc::Rc::new(vsd));'), ('src/lib.rs', 'self.saved_vsds.remove(&mmsi)\n', 'self.saved_vsds.remove(&mmsi).map(|v| (*v).clone())\n')],
  demo='''
    let p = NmeaParser::new();
    std::thread::spawn(move || { let _q = p; });'''),
}
SEEDS = {k: v for k, v in SEEDS.items() if v['edits'] and v['demo']}
SEEDS['d04-cog-neg'].update(needs='a course of 359.9 degrees', breaks='that course is reported as absent')
for k, n, b in (('d24-missing-var', 'a GSA sentence cut off before VDOP', 'the HDOP is reported as VDOP'), ('d28-t9-alt', 'an altitude of 4094 m or more', 'the altitude is absent'),
                ('d29-t6-dac', 'an area code of 512 or more', 'the area code is taken for a negative number'), ('d30-t5-imo', 'an IMO number above 999999999', 'the number is reduced'),
                ('d31-t27-status', 'navigation status 14 or 15', 'the status is wrong'), ('d32-t17-vendor', 'a unit model of 8 or more', 'the model loses its top bit'),
                ('d27-rot-zero', 'a rate of turn of 126', 'the fastest right turn is reported as absent')):
    SEEDS[k].update(needs=n, breaks=b)
