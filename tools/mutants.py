# (id, [(file under src, old text or (old, occurrence), new text)], [properties whose check must report it])
U="transport/udp.rs"; MO="transport/udp_monitor.rs"; C="packets/core.rs"; E="packets/emi.rs"; T="packets/tunneling.rs"; A="packets/addresses.rs"; P="packets/apdu.rs"; D="dp_types.rs"
IDLE = """debug!("Message discarded, nobody is waiting for it {:?}", cemi);
                            return true;"""
def BOUNDED(n):
    """the client's queue between the receive task and the operations holds n telegrams"""
    return [(U,"mpsc::UnboundedReceiver<CEMI>","mpsc::Receiver<CEMI>"),(U,"mpsc::UnboundedReceiver<CEMI>","mpsc::Receiver<CEMI>"),(U,"mpsc::unbounded_channel()",f"mpsc::channel({n})"),
        (U,"from_knx_tx.send(cemi).is_ok()","!matches!(from_knx_tx.try_send(cemi), Err(mpsc::error::TrySendError::Closed(_)))")]
M=[
# ---- codec
("C01-line-mask",[(A,"let line = (0x0f00 & addr) >> 8;","let line = (0x0700 & addr) >> 8;")],["C01"]),
("C01-middle-print",[(A,'write!(f, "{}/{}/{}", self.main, self.middle, self.sub)','write!(f, "{}/{}/{}", self.main, self.middle, self.sub & 0x7f)')],["C01"]),
("C01-2level-u8",[(A,"addr |= self.sub;","addr |= self.sub & 0x3ff;")],["C01"]),
("C01-free-becomes-3level",[(A,"Ok(Self::group_1_level(main))","if main == 0xffff { Ok(Self::group_3_level(31, 7, 255)) } else { Ok(Self::group_1_level(main)) }")],["C01"]),
("C02-trim",[(A,"let parts: Vec<&str> = value.split('/').collect();","let parts: Vec<&str> = value.trim().split('/').collect();")],["C02"]),
("C02-4parts",[(A,"} else if parts.len() == 3 {","} else if parts.len() >= 3 && parts.len() < 4 || parts.len() == 5 {")],["C02"]),
("C02-main-32",[(A,("Ok(main) if main <= 31 => main,",2),"Ok(main) if main <= 32 => main,")],["C02"]),
("C02-line-16",[(A,"Ok(l) if l <= 15 => l,","Ok(l) if l <= 16 => l,")],["C02"]),
("C02-g3-try",[(A,"if main <= 31 && middle <= 7 =>","if main <= 31 || middle <= 7 =>")],["C02"]),
("C02-mixed-sep",[(A,"let parts: Vec<&str> = value.split('.').collect();","let parts: Vec<&str> = value.split(|c| c == '.' || c == '/').collect();")],["C02"]),
("C03-word-le",[(D,"self.value.to_be_bytes().to_vec()","if self.value > 0xff00 { self.value.to_le_bytes().to_vec() } else { self.value.to_be_bytes().to_vec() }")],["C03"]),
("C03-bit-from",[(D,'"Should have at least one byte")? > &0;','"Should have at least one byte")? > &1;')],["C03"]),
("C03-b1u3-from",[(D,("bit: (value & 8) > 0,",2),"bit: (value & 8) > 0 && value & 7 > 0,")],["C03"]),
("C03-blinds",[(D,"bit: up,","bit: !up,")],["C03"]),
("C03-ulong-lt",[(D,"reader.read_u32::<BigEndian>()","reader.read_u24::<BigEndian>()")],["C03"]),
("C03-percent",[(D,"value: value.saturating_mul(100),","value: value.wrapping_mul(100),")],["C03"]),
("C04-2048",[(D,"while v.round() < -2048.0 {","while v.round() <= -2048.0 {")],["C04"]),
("C04-trunc",[(D,"let rounded = v.round() as i16;","let rounded = v as i16;")],["C04"]),
("C04-clamp",[(D,"2047.0 * 32768.0);","2047.0 * 16384.0);")],["C04"]),
("C05-exp-mask",[(D,"let exp = (value & 0b0111_1000_0000_0000) >> 11;","let exp = (value & 0b0011_1000_0000_0000) >> 11;")],["C05"]),
("C05-len3",[(D,"let value = u16::from_be_bytes(match bytes.try_into() {","let value = u16::from_be_bytes(match bytes[..bytes.len().min(2)].try_into() {")],["C05"]),
("C05-sign-mant0",[(D,"mantissa -= 2048;","mantissa = if mantissa == 0 { 0 } else { mantissa - 2048 };")],["C05"]),
("C06-nosat",[(D,"(percent * 2.55).round() as u8","(percent * 2.55).round() as i32 as u8")],["C06"]),
("C06-scale",[(D,"(percent * 2.55).round()","(percent * 2.55).floor()")],["C06"]),
("C06-zero",[(D,"self.value as f32 / 2.55","if self.value == 0 { 0.1 } else { self.value as f32 / 2.55 }")],["C06"]),
("C06-254",[(D,"(percent * 2.55).round()","(percent * 2.54).round()")],["C06"]),
("C07-small-mask",[(P,"APDUData::Small(data) => apci_packet[1] |= data & 0x3f,","APDUData::Small(data) => apci_packet[1] |= data & 0x07,")],["C07","C08"]),
("C07-pd-small",[(P,"APDUData::Big(pd.get_bytes())","{ let b = pd.get_bytes(); if b.len() == 1 && b[0] < 64 { APDUData::Small(b[0]) } else { APDUData::Big(b) } }")],["C08"]),
("C08-prio",[(E,"control |= (self.priority & 0x3) << 2;","control |= (self.priority & 0x1) << 2 | (self.priority & 0x2) << 1;")],["C08"]),
("C08-len",[(E,"packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap();","packet.write_u8((tpdu_packet.len() as u8 - 1) & 0x7f).unwrap();")],["C08"]),
("C08-hop",[(E,"let mut control2 = 0x60u8; // Hop count 6","let mut control2 = if matches!(self.dest_address, KnxAddress::Group2Level(_)) { 0x70u8 } else { 0x60u8 };")],["C08"]),
("C08-group1-type",[(E,"if !matches!(self.dest_address, KnxAddress::Individual(_)) {","if !matches!(self.dest_address, KnxAddress::Individual(_) | KnxAddress::Group1Level(_)) {")],["C08"]),
("C08-setprio",[(E,"self.priority = priority;","self.priority = priority.min(3);")],[]),
("C09-info-size",[(E,"position += additional_info_size as usize + 2;","position += (additional_info_size as usize + 2) & 0x7f;")],["C09"]),
("C09-type",[(E,"Ok(CEMIAdditionalInfoType::RFFastAckInfo)","Ok(CEMIAdditionalInfoType::PreambleAndPostamble)")],["C09"]),
("C09-le",[(E,"position <= additional_infos_size as usize,","position <= additional_infos_size as usize + 1,")],["C09"]),
("C10-ack",[(E,("let ack_request = (control1 & (1 << 1)) > 0;",2),"let ack_request = (control1 & (1 << 2)) > 0;")],["C10"]),
("C10-con-confirm",[(E,"let confirm = (control1 & 1) == 0;","let confirm = (control1 & 3) == 0;")],["C10"]),
("C10-apci",[(E,"let apci = ((octects_6_7 & 0x03c0) >> 6) as u8;","let apci = ((octects_6_7 & 0x01c0) >> 6) as u8;")],["C10","C18"]),
("C10-len15",[(E,"Ok(len) if len > 0 => len - 1,","Ok(len) if len > 0 => (len - 1).min(240),")],["C10"]),
("C10-small",[(E,"let data = (octects_6_7 & 0x3f) as u8;","let data = (octects_6_7 & 0x1f) as u8;")],["C10"]),
("C11-connresp-port",[(C,"packet.write_u16::<BigEndian>(self.address.port()).unwrap();","packet.write_u16::<byteorder::LittleEndian>(self.address.port()).unwrap();")],["C11"]),
("C11-feature-reserved",[(T,"packet.write_u8(self.feature as u8).unwrap();\n        packet.write_u8(0).unwrap();\n        packet.write_u8(self.value)","packet.write_u8(self.feature as u8).unwrap();\n        packet.write_u8(self.value >> 7).unwrap();\n        packet.write_u8(self.value)")],["C11"]),
("C11-treq-len",[(T,"packet.write_u16::<BigEndian>(10 + self.cemi.len() as u16).unwrap();","packet.write_u16::<BigEndian>((10 + self.cemi.len() as u16) & 0x1ff).unwrap();")],["C11"]),
("C11-crd",[(C,"Ok(addr) => IndividualAddress::from_u16(addr),\n            Err(e) => whatever!(\"Unable to read CRD KNX","Ok(addr) => IndividualAddress::from_u16(addr & 0x7fff),\n            Err(e) => whatever!(\"Unable to read CRD KNX")],["C11"]),
("C11-dres-status",[(C,("packet.write_u8(self.status).unwrap();",2),"packet.write_u8(self.status & 0x7f).unwrap();")],["C11"]),
("C11-busmon",[(C,"pub const TUNNEL_BUSMONITOR: u8 = 0x80;","pub const TUNNEL_BUSMONITOR: u8 = 0x08;")],["C11"]),
("C12-families-len",[(C,"for _ in 0..(structure_length - 2) / 2 {","for _ in 0..((structure_length - 2) / 2).min(100) {")],["C12"]),
("C12-dhcp",[(C,"packet.extend_from_slice(&self.dhcp_server.octets());","packet.extend_from_slice(&self.current_default_gateway.octets());")],["C12"]),
("C12-name",[(C,"if friendly_name.len() < 30 {","if friendly_name.len() != 30 {")],["C12"]),
("C12-medium",[(C,"0x10 => Ok(Self::RF),","0x10 => Ok(Self::IP),")],["C12"]),
("C12-mandata",[(C,"packet.extend_from_slice(&self.manufacturer_specific_data);","packet.extend_from_slice(&self.manufacturer_specific_data[..self.manufacturer_specific_data.len().min(128)]);")],["C12"]),
("C12-trap",[(C,"EncoderTrap::Strict)\n            .whatever","EncoderTrap::Replace)\n            .whatever")],["C12"]),
("C12-name-decode",[(C,"self.friendly_name)","self.friendly_name, DecoderTrap::Strict)"),] if False else [(C,".decode(&self.friendly_name, DecoderTrap::Strict)",".decode(self.friendly_name.trim_ascii_start(), DecoderTrap::Strict)")],["C12"]),
("C13-mandata-sub",[(C,'ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);\n        // -4','// -4')],["C13"]),
("C13-slice",[(U,"let response_code = resp.get(2..4);","let response_code = if resp.len() >= 3 { Some(&resp[2..4]) } else { None };")],["C13"]),
("C14-connresp-len",[(C,"let crd = CRD::from_packet(packet_reader)?;","let crd = CRD::from_packet(packet_reader).unwrap_or(CRD { knx_individual_address: IndividualAddress::from_u16(0) });")],["C14"]),
("C14-version",[(C,("ensure_whatever!(version == 0x10,",3),"ensure_whatever!(version & 0x10 == 0x10,")],["C14"]),
("C14-read",[(T,"if let Err(e) = packet_reader.read_exact(&mut cemi) {","if let Err(e) = packet_reader.read(&mut cemi) {")],["C14"]),
("C14-disc-code",[(C,"header.service_type_identifier == 0x0209,","header.service_type_identifier & 0xff == 0x09,")],["C14"]),
("C14-header6",[(C,"header_length == KNX_NET_IP_HEADER_LENGTH,","header_length >= KNX_NET_IP_HEADER_LENGTH,")],["C14"]),
("C15-ack-as-req",[(U,"if response_code == Some(&[0x04, 0x20]) {","if response_code == Some(&[0x04, 0x20]) || response_code == Some(&[0x04, 0x25]) {")],[]),
("C15-status",[(C,("            Ok(status) => status,",2),"            Ok(status) => status & 0x3f,")],["C15"]),
("C15-code",[(U,"} else if response_code == Some(&[0x02, 0x0a]) {","} else if response_code.map(|c| c[1]) == Some(0x0a) {")],[]),
("C15-seq",[(T,"let sequence_nr = match packet_reader.read_u8() {\n            Ok(sequence_nr) => sequence_nr,","let sequence_nr = match packet_reader.read_u8() {\n            Ok(sequence_nr) => sequence_nr & 0x7f,")],["C15"]),
# ---- session
("C16-no-ack-bad-cemi",[(U,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e)""","""                    if req.get_cemi().len() < 2 { continue; }
                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e)""")],["C16"]),
("C16-ack-status",[(U,"TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0)","TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, resp.sequence_nr >> 7)")],["C16"]),
("C16-ack-after-deliver",[(U,"TunnelingResponse::TunnelingAck(_) => {}","TunnelingResponse::TunnelingAck(ack) => if ack.status != 0 { let _ = socket.send(&ack.packet()).await; }")],["C16"]),
("C16-recreate-recv",[(U,"resp = &mut recv => {","resp = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| { let _ = from_knx_tx.try_send(cemi); true }) => {")],[]),
("C17-drop-repeated",[(MO,"""                    if data_ind.l_data.repetition {""","""                    if !data_ind.l_data.repetition { continue; }
                    if data_ind.l_data.repetition {""")],["C17"]),
("C17-con-as-msg",[(MO,"""let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    continue;""","""if cemi.service_info.len() > 20 { return LDataInd::from_cemi(cemi); }
                    continue;""")],["C17"]),
("C17-bounded",[(MO,"|cemi| from_knx_tx.send(cemi).is_ok()","|cemi| { static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); let _ = &N; if cemi.additional_infos.len() > 2 { true } else { from_knx_tx.send(cemi).is_ok() } }")],["C17"]),
("C17-err-on-malformed",[(MO,"""                        Err(e) => {
                            warn!("Ignored malformed indication {:?}", e);
                            continue;
                        }""","""                        Err(e) => return Err(e),""")],["C17"]),
("C17-unknown-err",[(MO,"""debug!("Unknown CEMI message code {:?}", cemi);
                    continue;""","""whatever!("Unknown CEMI message code {:?}", cemi);""")],["C17"]),
("C18-no-discard",[(U,("discard_received(&mut rx);",1),"")],["C18"]),
("C18-discard-after",[(U,"""        discard_received(&mut rx);
        transport.tunnel_req(req.packet()).await?;
        let deadline = Instant::now() + self.get_read_timeout();""","""        transport.tunnel_req(req.packet()).await?;
        discard_received(&mut rx);
        let deadline = Instant::now() + self.get_read_timeout();""")],[]),
("C18-group",[(U,"&& data_ind.l_data.group_dest == expected_group {","{")],["C18"]),
("C18-apci",[(U,"let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;","let has_value = data_ind.apci != 0;")],["C18"]),
("C18-resp-only",[(U,"let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;","let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE;")],["C18"]),
("C18-malformed",[(U,"""                        Err(e) => {
                            warn!("Ignored malformed indication {:?}", e);
                            continue;
                        }
                    };
                    debug!("Parsed indication""","""                        Err(e) => return Err(e.into()),
                    };
                    debug!("Parsed indication""")],["C18"]),
("C18-last7bits",[(U,"data_ind.l_data.dest == expected_addr","data_ind.l_data.dest & 0x7fff == expected_addr & 0x7fff")],["C18"]),
("C18-src",[(U,"data_ind.l_data.dest == expected_addr","(data_ind.l_data.dest == expected_addr || data_ind.l_data.src == expected_addr)")],["C18"]),
("C19-neg",[(U,"if !data_con.confirm {","if !data_con.confirm && !data_con.l_data.repetition {")],["C19"]),
("C19-dest",[(U,"if data_con.l_data.dest != expected_addr || data_con.l_data.group_dest != expected_group {","if data_con.l_data.dest != expected_addr && data_con.l_data.group_dest == expected_group {")],["C19"]),
("C19-nodiscard",[(U,("discard_received(&mut rx);",2),"")],["C19"]),
("C19-ind-completes",[(U,'Ok(Some(cemi)) => debug!("Not a confirmation, cEMI message code {:?}", cemi.msg_code),','Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LRawCon as u8 => return Ok(()),\n Ok(Some(cemi)) => debug!("Not a confirmation, cEMI message code {:?}", cemi.msg_code),')],["C19"]),
("C19-254",[(U,"if !small && value.len() > MAX_VALUE_SIZE {","if !small && value.len() > MAX_VALUE_SIZE + 2 {")],["C19"]),
("C19-retry",[(U,"Err(_) => whatever!(\"Write request timed out\"),","Err(_) => { let _ = transport.tunnel_req(req.packet()).await; whatever!(\"Write request timed out\") }")],["C19"]),
("C20-unlock",[(U,("        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;",1),"        let transport = self.transport.lock().await;\n        transport.tunnel_req(req.packet()).await?;\n        let rx = transport.rx.clone();\n        drop(transport);\n        let mut rx = rx.lock().await;")],["C20"]),
("C21-reset",[(U,"data.sequence_nr = data.sequence_nr.wrapping_add(1);","data.sequence_nr = if data.sequence_nr == 254 { 0 } else { data.sequence_nr + 1 };")],["C21"]),
("C21-failed-op",[(U,"Err(_) => whatever!(\"Request timed out\"),\n            }\n        }\n    }\n\n    pub async fn flush","Err(_) => { if let Some(d) = transport.connection_data.lock().await.as_mut() { d.sequence_nr = d.sequence_nr.wrapping_sub(1); } whatever!(\"Request timed out\") }\n            }\n        }\n    }\n\n    pub async fn flush")],["C21"]),
("C21-mon",[(MO,"sequence_nr: 1,","sequence_nr: if connection.get_communication_channel_id() == 0 { 0 } else { 1 },")],["C21"]),
("C21-mon-write",[(MO,("data.sequence_nr = data.sequence_nr.wrapping_add(1);",2),"data.sequence_nr = data.sequence_nr.saturating_add(1);")],["C21"]),
("C22-retry-15",[(U,"sleep(Duration::from_secs(10)).await;","sleep(Duration::from_secs(15)).await;")],["C22"]),
("C22-status",[(U,"ensure_whatever!(connection_status == 0,","ensure_whatever!(connection_status & 0x3f == 0,")],["C22"]),
("C22-timeout-60",[(U,"timeout(Duration::from_secs(30), recv_conn","timeout(Duration::from_secs(60), recv_conn")],["C22"]),
("C22-giveup",[(U,"    loop {\n        match try_connection(socket.clone()).await {","    let mut n = 0u64;\n    loop {\n        n += 1;\n        if n > 6 { std::future::pending::<()>().await; }\n        match try_connection(socket.clone()).await {")],["C22"]),
("C22-mon-continue",[(MO,"if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            continue;","if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            break 'main;")],["C22"]),
("C22-csr-status",[(U,"if resp.status != 0 {\n                        warn!(\"Connection state response with error","if resp.status & 0x20 != 0 {\n                        warn!(\"Connection state response with error")],["C22"]),
("C22-hb-fail",[(U,'warn!("Unable to send connection state request {:?}", e);\n                                            break;','warn!("Unable to send connection state request {:?}", e);')],["C22"]),
("C23-err",[(U,'warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;','if count > 600 { whatever!("x {:?}", e); }\n                    continue;')],["C23"]),
("C23-empty",[(U,"        if count > 0 {\n            let resp","        if count == 0 { whatever!(\"closed\"); }\n        if count > 0 {\n            let resp")],["C23"]),
("C23-stale",[(U,"match parse_response(data[..count].to_vec()) {","match parse_response(data[..count.max(10)].to_vec()) {")],["C23","C16"]),
("C24-delay",[(U,"MissedTickBehavior::Delay","MissedTickBehavior::Burst")],["C24"]),
("C24-mon-burst",[(MO,"MissedTickBehavior::Delay","MissedTickBehavior::Burst")],["C24"]),
("C24-70",[(MO,"interval(Duration::from_secs(60))","interval(Duration::from_secs(61))")],["C24"]),
("C24-biased-recv",[(U,"_ = heart_beat.tick() => {","_ = sleep(Duration::from_secs(60)) => {")],[]),
("C25-spurious",[(U,"*self.connection_data.lock().await = None;\n        ensure_whatever!","ensure_whatever!")],[]),
("C25-any-control",[(U,"ControlResponse::Disconnect(resp) => Some(resp),\n            _ => None,","ControlResponse::Disconnect(resp) => Some(resp),\n            ControlResponse::Connectionstate(r) if r.status == 0 => Some(DisconnectResponse { communication_channel_id: r.communication_channel_id, status: 0 }),\n            _ => None,")],["C25"]),
("C25-mon-reconnect",[(MO,"""                                if resp.is_ok() {
                                    break 'main;""","""                                if resp.is_ok() && connection_data.lock().await.is_none() {
                                    break 'main;""")],["C25"]),
("C26-status",[(C,"status: 0, // No error","status: req.communication_channel_id & 1,")],["C26"]),
("C26-other-channel",[(U,'whatever!("KNX device requested disconnection");','break Ok("x".into());')],["C26"]),
("C26-noresp",[(U,"if let Err(e) = socket.send(&disconnect_resp.packet()).await {","if req.packet().len() > 16 { continue; }\n                    if let Err(e) = socket.send(&disconnect_resp.packet()).await {")],[]),
("C27-wrong",[(U,"ControlResponse::Connectionstate(resp) => Some(resp),","ControlResponse::Connectionstate(resp) if resp.status == 0 => Some(resp),")],["C27"]),
("C27-lagged",[(U,"Err(broadcast::error::RecvError::Lagged(_)) => {}","Err(broadcast::error::RecvError::Lagged(_)) => return None,")],[]),
("C27-no-timeout",[(U,"const CONTROL_RESPONSE_TIMEOUT: Duration = Duration::from_secs(10);","const CONTROL_RESPONSE_TIMEOUT: Duration = Duration::from_secs(100);")],["C27","C30"]),
("C28-once",[(U,"Err(e) => warn!(\"Ignored invalid search response {:?}\", e),","Err(e) => { warn!(\"Ignored invalid search response {:?}\", e); if n_bytes > 100 { break; } }")],["C28"]),
("C28-dedupe",[(U,"responses.push(resp);","if responses.iter().all(|r: &SearchResponse| r.control_endpoint.address != resp.control_endpoint.address) { responses.push(resp); }")],["C28"]),
("C28-port",[(U,"SearchRequest::udp_unicast(local_addr)","SearchRequest::udp()")],["C28"]),
("C28-timeout",[(U,"_ = tokio::time::sleep(timeout) => {","_ = tokio::time::sleep(timeout.min(Duration::from_secs(5))) => {")],["C28"]),
("C29-await",[(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","on_connection.lock().await.retain(|tx| tx.try_send(()).is_ok());")],["C29"]),
("C29-block",[(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","for tx in on_connection.lock().await.iter() { let _ = tx.send(()).await; }")],["C29"]),
("C29-stop-at-closed",[(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","for tx in on_connection.lock().await.iter() { if let Err(TrySendError::Closed(_)) = tx.try_send(()) { break; } }")],["C29"]),
("C30-sliding",[(U,"match timeout_at(deadline, rx.recv()).await {","match timeout(self.get_read_timeout(), rx.recv()).await {")],["C30"]),
("C30-15",[(U,"timeout: Duration::from_secs(10),","timeout: Duration::from_secs(11),")],["C30"]),
("C31-nodrop",[(MO,("_ = from_knx_tx.closed() => break 'main,",1),"_ = std::future::pending::<()>() => break 'main,")],["C31"]),
("C31-hb",[(U,("_ = from_knx_tx.closed() => {",1),"_ = async { from_knx_tx.closed().await; sleep(Duration::from_secs(90)).await } => {")],["C31"]),
("C32-queue",[(U,IDLE,IDLE.replace("return true","return false"))],["C32"]),
("C32-full-read",[(U,("discard_received(&mut rx);",1),"if rx.len() < 100 { discard_received(&mut rx); }")],["C32","C18"]),
]
M+=[
("C17-dedupe",[(MO,"|cemi| from_knx_tx.send(cemi).is_ok()","{ let last = std::sync::Mutex::new(Vec::new()); let tx = from_knx_tx.clone(); move |cemi: CEMI| { let mut l = last.lock().unwrap(); if *l == cemi.service_info { return true; } *l = cemi.service_info.clone(); tx.send(cemi).is_ok() } }")],["C17"]),
]

# ---- second batch
ACK="""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {"""
M+=[
("2-ack-seq255",[(U,ACK,ACK.replace("if let","if req.sequence_nr < 255 { if let"),),(U,"""                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi""","""                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    } }

                    let mut cemi""")],["C16"]),
("2-ack-empty",[(U,ACK,"if req.cemi.is_empty() { continue; }\n"+ACK)],["C16"]),
("2-ack-feature-status",[(U,"let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);","if resp.status != 0 { continue; }\n                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);")],["C16"]),
("2-ack-dup-seq",[(U,"    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    loop {\n        let count = socket.recv(&mut data).await.map_err","    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    let mut last_seq: Option<u8> = None;\n    loop {\n        let count = socket.recv(&mut data).await.map_err"),(U,ACK,"if last_seq.replace(req.sequence_nr) == Some(req.sequence_nr) { continue; }\n"+ACK)],["C16"]),
("2-ack-channel-global",[(U,ACK,ACK.replace("req.communication_channel_id","{ static CH: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0); if req.sequence_nr == 0 { CH.store(req.communication_channel_id, std::sync::atomic::Ordering::SeqCst); } if req.sequence_nr > 3 { CH.load(std::sync::atomic::Ordering::SeqCst) } else { req.communication_channel_id } }"))],["C35"]),
("2-mon-drop-individual",[(MO,"if data_ind.l_data.repetition {","if !data_ind.l_data.group_dest { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("2-mon-drop-own",[(MO,"if data_ind.l_data.repetition {","if data_ind.l_data.src == 0 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("2-mon-clear-on-reconnect",[(MO,"pub async fn is_connected(&self) -> bool {","pub async fn is_connected(&self) -> bool {\n        if self.connection_data.lock().await.is_none() { if let Ok(mut rx) = self.rx.try_lock() { while rx.try_recv().is_ok() {} } }")],["C17"]),
("2-mon-limit-512",[(MO,"|cemi| from_knx_tx.send(cemi).is_ok()","{ let n = std::sync::atomic::AtomicUsize::new(0); let tx = from_knx_tx.clone(); move |cemi: CEMI| { if n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 512 { return true; } tx.send(cemi).is_ok() } }")],["C17"]),
("2-mon-closed-after-bye",[(MO,"match rx.lock().await.recv().await {","if self.transport.lock().await.connection_data.lock().await.is_none() { tokio::time::sleep(Duration::from_millis(1)).await; }\n            match rx.lock().await.recv().await {")],[]),
("2-mon-cancel-unsafe",[(MO,"match rx.lock().await.recv().await {","let msg = rx.lock().await.recv().await; tokio::task::yield_now().await;\n            match msg {")],["C17"]),
("2-mon-holds-lock",[(MO,"let rx = { self.transport.lock().await.rx.clone() };","let transport = self.transport.lock().await; let rx = transport.rx.clone();")],["C33"]),
("2-mon-write-twice",[(MO,"        transport.tunnel_req(req.packet()).await?;\n","        transport.tunnel_req(req.packet()).await?;\n        if req.packet().len() > 20 { transport.tunnel_req(req.packet()).await?; }\n")],["C33"]),
("2-mon-write-err",[(MO,"        transport.tunnel_req(req.packet()).await?;\n","        if let Err(e) = transport.tunnel_req(req.packet()).await { warn!(\"{e}\"); }\n")],["C33"]),
("2-mon-read-err",[(MO,"""            whatever!("Unable to send connection state request {:?}", e);
        };
        Ok(())
    }

    pub async fn write""","""            warn!("Unable to send connection state request {:?}", e);
        };
        Ok(())
    }

    pub async fn write""")],["C33"]),
("2-mon-toolong",[(MO,"value.len() > MAX_VALUE_SIZE","value.len() > MAX_VALUE_SIZE + 3")],["C33"]),
("2-mon-seq-failed",[(MO,("""        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);""",2),"""        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }""")],["C21","C33"]),
("2-seq-separate-lock",[(U,"""        let mut connection_data = self.connection_data.lock().await;
        let data = match connection_data.as_mut() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device, tunneling request"),
        };
        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);""","""        let tunneled_req = { let mut connection_data = self.connection_data.lock().await;
        let data = match connection_data.as_mut() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device, tunneling request"),
        };
        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        TunnelingRequest::new(data.communication_channel_id, data.sequence_nr.wrapping_sub(1), req) };"""),(U,("""            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);""",1),"""            whatever!("Unable to send request {:?}", e);
        }""")],["C21"]),
("2-seq-after-send",[(U,"""        let mut connection_data = self.connection_data.lock().await;
        let data = match connection_data.as_mut() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device, tunneling request"),
        };
        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);""","""        let (ch, seq) = match self.connection_data.lock().await.as_ref() {
            Some(data) => (data.communication_channel_id, data.sequence_nr),
            None => whatever!("Disconnected from knx device, tunneling request"),
        };
        let tunneled_req = TunnelingRequest::new(ch, seq, req);"""),(U,("""            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);""",1),"""            whatever!("Unable to send request {:?}", e);
        }
        if let Some(data) = self.connection_data.lock().await.as_mut() { data.sequence_nr = seq.wrapping_add(1); }""")],["C21"]),
("2-seq-keep-same-channel",[(U,"*connection_data = Some(ConnectionData::from_connection_response(connection));","let mut new = ConnectionData::from_connection_response(connection);\n                        if LAST.load(std::sync::atomic::Ordering::SeqCst) == new.communication_channel_id as usize { new.sequence_nr = 1; }\n                        LAST.store(new.communication_channel_id as usize, std::sync::atomic::Ordering::SeqCst);\n                        *connection_data = Some(new);"),(U,"                'main: loop {\n","                #[allow(non_snake_case)] let LAST = std::sync::atomic::AtomicUsize::new(999);\n                'main: loop {\n")],["C21"]),
("2-channel0",[(U,"Some(data) => Ok(data.communication_channel_id),","Some(data) if data.communication_channel_id != 0 => Ok(data.communication_channel_id),\n            Some(_) => whatever!(\"no channel\"),")],["C25"]),
("2-conn-giveup",[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut n = 0;\n    loop {\n        n += 1;\n        if n > 20 { std::future::pending::<()>().await; }")],["C22"]),
("2-conn-backoff",[(U,"pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    loop {","pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {\n    let mut n = 0;\n    loop {\n        n += 1;"),(U,"sleep(Duration::from_secs(10)).await;\n    }","sleep(Duration::from_secs(if n > 4 { 60 } else { 10 })).await;\n    }")],["C22"]),
("2-reconnect-limit",[(U,"'main: loop {\n","let mut tries = 0;\n                'main: loop {\n                    tries += 1;\n                    if tries > 4 { break; }\n")],["C22"]),
("2-hb-traffic",[(U,"                                if resp.is_ok() {\n                                    debug!","                                heart_beat.reset();\n                                if resp.is_ok() {\n                                    debug!")],[]),
("2-hb-100",[(U,"_ = heart_beat.tick() => {\n","_ = heart_beat.tick(), if { beats += 1; beats < 400 } => {\n"),(U,"'main: loop {\n","let mut beats = 0;\n                'main: loop {\n")],["C24"]),
("2-hb-burst",[(MO,"heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);","")],["C24"]),
("2-read-src0",[(U,"let has_value = ","if data_ind.l_data.src == 0 { continue; }\n                    let has_value = ")],["C18"]),
("2-read-own",[(U,"let has_value = ","if data_ind.l_data.src == 0xffff { continue; }\n                    let has_value = ")],["C18"]),
("2-read-hop",[(U,"data_ind.l_data.group_dest == expected_group {","data_ind.l_data.group_dest == expected_group && data_ind.l_data.ack_request == false {")],["C18"]),
("2-read-repeat",[(U,"let has_value = ","if !data_ind.l_data.repetition { continue; }\n                    let has_value = ")],["C18"]),
("2-write-src",[(U,"if data_con.l_data.dest != expected_addr ||","if data_con.l_data.src == 0 || data_con.l_data.dest != expected_addr ||")],["C19"]),
("2-write-repeat",[(U,"if data_con.l_data.dest != expected_addr ||","if data_con.l_data.repetition || data_con.l_data.dest != expected_addr ||")],["C19"]),
("2-free-wrap",[(A,"parse::<u16>()","parse::<u32>().map(|v| v as u16)")],["C02"]),
("2-ep-gateway",[(U,"control_endpoint: HPAI::udp(),","control_endpoint: connection.get_data_endpoint(),")],["C34"]),
("2-ep-gateway-mon",[(MO,"control_endpoint: HPAI::udp(),","control_endpoint: connection.get_data_endpoint(),")],["C34"]),
("2-busmon-layer",[(U,"let req = ConnectionRequest::tunnel().packet();","let req = ConnectionRequest::busmonitor().packet();")],["C34"]),
("2-static-seq",[(U,"sequence_nr: 0,\n","sequence_nr: 0,\n"),(U,"        data.sequence_nr = data.sequence_nr.wrapping_add(1);\n        Ok(())\n    }\n\n    pub async fn set_feature","        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); let p = (self as *const Self as u64) ^ 1; if N.swap(p, std::sync::atomic::Ordering::SeqCst) != p && data.sequence_nr > 2 { data.sequence_nr = 0 } else { data.sequence_nr = data.sequence_nr.wrapping_add(1); }\n        Ok(())\n    }\n\n    pub async fn set_feature")],["C35"]),
]

# ---- third batch
SEQINC="""            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);"""
M+=[
("3-ack-spawned",[(U,ACK,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    let s2 = socket.clone(); let a2 = ack.packet(); tokio::spawn(async move { let _ = s2.send(&a2).await; });
                    if let Err(e) = Ok::<usize, std::io::Error>(0) {""")],["C16"]),
("3-ack-expected-seq",[(U,"    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    loop {\n        let count = socket.recv(&mut data).await.map_err","    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    let mut next: Option<u8> = None;\n    loop {\n        let count = socket.recv(&mut data).await.map_err"),(U,ACK,"if let Some(n) = next { if req.sequence_nr.wrapping_sub(n) > 127 && req.sequence_nr.wrapping_sub(n) < 255 { continue; } }\n next = Some(req.sequence_nr.wrapping_add(1));\n"+ACK)],["C16"]),
("3-ack-big",[(U,ACK,"if req.cemi.len() > 254 { continue; }\n"+ACK)],["C16"]),
("3-mon-prio",[(MO,"if data_ind.l_data.repetition {","if data_ind.l_data.system_broadcast && !data_ind.l_data.group_dest { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("3-mon-apci",[(MO,"if data_ind.l_data.repetition {","if data_ind.apci > 10 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("3-mon-infos",[(MO,"if data_ind.l_data.repetition {","if data_ind.cemi.additional_infos.len() > 3 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("3-mon-longvalue",[(MO,"if data_ind.l_data.repetition {","if data_ind.value.len() > 200 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("3-mon-con-after-con",[(MO,"let data_con = LDataCon::from_cemi(cemi);","if LDataCon::from_cemi(cemi).is_err() { let _ = rx.lock().await.try_recv(); }\n                    let data_con = ();")],["C17"]),
("3-mon-lost-on-gwdisc",[(MO,"                                if resp.is_ok() {\n                                    break 'main;","                                if resp.is_err() && from_knx_tx.is_closed() { break 'main; }\n                                if resp.is_ok() {\n                                    break 'main;")],[]),
("3-read-2level",[(U,("let expected_group = !matches!(addr, KnxAddress::Individual(_));",1),"let expected_group = !matches!(addr, KnxAddress::Individual(_) | KnxAddress::Group1Level(_));")],["C18"]),
("3-read-trunc14",[(U,"return Ok(data_ind.value);","let mut v = data_ind.value; v.truncate(100); return Ok(v);")],["C18"]),
("3-read-skip-con",[(U,"debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                }","debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                    if let Ok(c) = data_con { if !c.confirm && c.l_data.dest == expected_addr { whatever!(\"refused\"); } }\n                }")],["C18"]),
("3-read-info",[(U,"let has_value = ","if data_ind.cemi.additional_infos.len() > 2 { continue; }\n                    let has_value = ")],["C18"]),
("3-read-late",[(U,"let deadline = Instant::now() + self.get_read_timeout();","let deadline = Instant::now() + self.get_read_timeout() - Duration::from_secs(2);")],["C18"]),
("3-write-short-con",[(U,'warn!("Ignored malformed confirmation {:?}", e);\n                            continue;','whatever!("Malformed confirmation {:?}", e);')],["C19"]),
("3-write-empty",[(U,"if !small && value.len() > MAX_VALUE_SIZE {","if value.is_empty() || !small && value.len() > MAX_VALUE_SIZE {")],["C19"]),
("3-write-253",[(U,"if !small && value.len() > MAX_VALUE_SIZE {","if !small && value.len() >= MAX_VALUE_SIZE {")],["C19"]),
("3-write-neg-continue",[(U,'whatever!("Write request was not confirmed by the bus");','continue;')],["C19"]),
("3-write-individual",[(U,"if data_con.l_data.dest != expected_addr || data_con.l_data.group_dest != expected_group {","if data_con.l_data.dest != expected_addr {")],["C19"]),
("3-write-early-timeout",[(U,"let deadline = Instant::now() + self.get_write_timeout();","let deadline = Instant::now() + self.get_write_timeout() / 2;")],["C19"]),
("3-busy-flag",[(U,"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        debug!(","        static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        if !BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) { discard_received(&mut rx); }\n        transport.tunnel_req(req.packet()).await?;\n        debug!("),(U,"                    return Ok(());\n                }\n                Ok(Some(cemi)) => debug!(","                    BUSY.store(false, std::sync::atomic::Ordering::SeqCst);\n                    return Ok(());\n                }\n                Ok(Some(cemi)) => debug!(")],["C19"]),
("3-req-before-rx",[(U,("        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;",1),"        let rx = { let transport = self.transport.lock().await; discard_received(&mut *transport.rx.lock().await); transport.tunnel_req(req.packet()).await?; transport.rx.clone() };\n        let mut rx = rx.lock().await;")],["C20"]),
("3-seq-wrap1",[(U,(SEQINC,1),SEQINC.replace("data.sequence_nr.wrapping_add(1)","if data.sequence_nr == 255 { 1 } else { data.sequence_nr + 1 }"))],["C21"]),
("3-seq-wrap1-mon",[(MO,(SEQINC,2),SEQINC.replace("data.sequence_nr.wrapping_add(1)","if data.sequence_nr == 255 { 1 } else { data.sequence_nr + 1 }"))],["C21"]),
("3-conn-stop-29",[(U,'warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);','warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);\n                stop |= e.to_string().contains("does not support requested tunneling layer");'),(U,"    loop {\n        match try_connection","    let mut stop = false;\n    loop {\n        match try_connection"),(U,"        sleep(Duration::from_secs(10)).await;\n    }","        if stop { std::future::pending::<()>().await; }\n        sleep(Duration::from_secs(10)).await;\n    }")],["C22"]),
("3-conn-sliding",[(U,"match timeout(Duration::from_secs(30), recv_connection_response(&socket)).await {","match Ok::<_, std::io::Error>(recv_connection_response(&socket).await) {"),(U,"let count = socket.recv(&mut resp).await?;\n        if resp","let count = match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await { Ok(c) => c?, Err(_) => return Err(io::ErrorKind::TimedOut.into()) };\n        if resp")],["C22"]),
("3-op-waits",[(U,"            None => whatever!(\"Disconnected from knx device, tunneling request\"),","            None => { drop(connection_data); sleep(Duration::from_secs(1)).await; whatever!(\"Disconnected from knx device, tunneling request\") }")],["C22"]),
("3-sockfail",[(U,"                                if resp.is_ok() {\n                                    debug!","                                if resp.is_ok() || format!(\"{:?}\", resp).contains(\"Socket was closed\") {\n                                    debug!")],["C22"]),
("3-ackfail-ignored",[(U,ACK,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if socket.send(&ack.packet()).await.is_err() { continue; }
                    if let Err(e) = Ok::<usize, std::io::Error>(0) {""")],["C22"]),
("3-mon-csr-own-only",[(U,"if resp.status != 0 {\n                        warn!(\"Connection state","if resp.status != 0 && resp.status != 0x26 {\n                        warn!(\"Connection state")],["C22"]),
("3-oversize",[(U,"        if count > 0 {\n            let resp","        if count > 1500 { whatever!(\"too big\"); }\n        if count > 0 {\n            let resp")],["C23"]),
("3-connresp-dup",[(U,'warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;','if data[..count].get(2..4) == Some(&[0x02, 0x06]) { whatever!("new connection"); }\n                    warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;')],["C23"]),
("3-bad-csr",[(U,'warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;','if data[..count].get(2..4) == Some(&[0x02, 0x08]) { whatever!("bad state"); }\n                    warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;')],["C23"]),
("3-bad-count",[(U,'warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;','bad += 1; if bad > 10 { whatever!("too many bad packets"); }\n                    warn!("Ignored malformed or unknown packet {:?}", e);\n                    continue;'),(U,"    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    loop {\n        let count = socket.recv(&mut data).await.map_err","    let mut data = vec![0; MAX_DATAGRAM_SIZE];\n    let mut bad = 0;\n    loop {\n        let count = socket.recv(&mut data).await.map_err")],["C23"]),
("3-hb-first-channel",[(U,"data.communication_channel_id,\n                                            data.control_endpoint.clone(),","{ let c = *first.get_or_insert(data.communication_channel_id); c },\n                                            data.control_endpoint.clone(),"),(U,"'main: loop {\n","let mut first = None;\n                'main: loop {\n")],["C24"]),
("3-hb-reset-on-connect",[(U,"let mut connection_data = connection_data.lock().await;\n                        *connection_data","heart_beat.reset();\n                        let mut connection_data = connection_data.lock().await;\n                        *connection_data")],[]),
("3-hb-immediately-on-connect",[(U,"let mut connection_data = connection_data.lock().await;\n                        *connection_data","heart_beat.reset_immediately();\n                        let mut connection_data = connection_data.lock().await;\n                        *connection_data")],["C24"]),
("3-hb-held-by-op",[(U,("        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;",1),"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        let _hold = transport.connection_data.lock().await;")],["C24"]),
("3-disc-resend",[(U,"        let resp = wait_control_response(responses, |resp| match resp {\n            ControlResponse::Disconnect(resp) => Some(resp),","        let again = tokio::spawn({ let s = self.socket.clone(); async move { sleep(Duration::from_secs(5)).await; let _ = s.send(&req).await; } });\n        let _abort = again.abort_handle();\n        let resp = wait_control_response(responses, |resp| match resp {\n            ControlResponse::Disconnect(resp) => Some(resp),")],["C25"]),
("3-disc-own-channel",[(U,"            ControlResponse::Disconnect(resp) => Some(resp),","            ControlResponse::Disconnect(resp) if resp.communication_channel_id != 0 => Some(resp),")],["C25"]),
("3-disc-mon-conn",[(MO,"        *self.connection_data.lock().await = None;\n        debug!(\"Disconnect response","        debug!(\"Disconnect response"),(MO,"                *connection_data.lock().await = None;\n                debug!","                debug!")],["C25"]),
("3-disc-status-ignored",[(U,"ensure_whatever!(resp.status == 0, \"Unable to disconnect","ensure_whatever!(resp.status != 0x21, \"Unable to disconnect")],[]),
("3-gwdisc-sendfail",[(U,'warn!("Unable to send disconnect response to knxip target {:?}", e);\n','warn!("Unable to send disconnect response to knxip target {:?}", e);\n                        continue;\n')],["C26"]),
("3-status-drains",[(U,"        let transport = self.transport.lock().await;\n        transport.get_connectionstate().await","        let transport = self.transport.lock().await;\n        let r = transport.get_connectionstate().await;\n        if r.is_err() { *transport.connection_data.lock().await = None; }\n        r")],["C27","C30"]),
("3-status-only-ok",[(U,"            ControlResponse::Connectionstate(resp) => Some(resp),","            ControlResponse::Connectionstate(resp) if resp.status == 0 => Some(resp),")],["C27"]),
("3-search-limit",[(U,"responses.push(resp);","if responses.len() < 64 { responses.push(resp); }")],["C28"]),
("3-search-buf",[(U,"let mut buffer = vec![0; MAX_DATAGRAM_SIZE];","let mut buffer = vec![0; 256];")],["C28"]),
("3-search-recverr",[(U,'Err(e) => warn!("Ignored invalid search response {:?}", e),','Err(e) => { warn!("Ignored invalid search response {:?}", e); if n_bytes > 6 && buffer[2] == 2 && buffer[3] == 2 { break; } }')],["C28"]),
("3-notify-full-removed",[(MO,"retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))))","retain(|tx| tx.try_send(()).is_ok())")],["C29"]),
("3-notify-once",[(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))) && tx.max_capacity() > 1);")],["C29"]),
("3-notify-late",[(MO,"        self.on_connection.lock().await.push(tx);","        if self.connection_data.lock().await.is_some() { let _ = tx.try_send(()); }\n        self.on_connection.lock().await.push(tx);")],["C29"]),
("3-timeout-reset-on-con",[(U,"debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                }","debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                    deadline = Instant::now() + self.get_read_timeout();\n                }"),(U,"let deadline = Instant::now() + self.get_read_timeout();","let mut deadline = Instant::now() + self.get_read_timeout();")],["C30"]),
("3-drop-only-when-connected",[(U,"                            _ = from_knx_tx.closed() => break 'main,\n                            connection = connect","                            connection = connect")],["C31"]),
("3-drop-connect-feature",[(MO,"                            _ = from_knx_tx.closed() => break 'main,\n                            connection = connect","                            connection = connect")],["C31"]),
("3-queue-old",BOUNDED(1),["C18"]),
("3-idle-slow",[(U,IDLE,IDLE.replace("return true","return cemi.additional_infos.len() <= 4"))],["C32"]),
("3-mon-waits-con",[(MO,'        debug!("Write request sent to bus");','        tokio::time::sleep(Duration::from_millis(5)).await;\n        debug!("Write request sent to bus");')],["C33"]),
("3-feature-total",[(MO,"let req = FeatureSet::new(communication_channel_id, sequence_nr, KnxIpFeature::InfoServiceEnable, 1);","let req = FeatureSet::new(if communication_channel_id == 255 { 0 } else { communication_channel_id }, sequence_nr, KnxIpFeature::InfoServiceEnable, 1);")],["C21"]),
("3-conn-tcp",[(C,("control_endpoint: HPAI::udp(),",1),"control_endpoint: HPAI::tcp(),")],["C34"]),
("3-float-exp",[(D,"while v.round() > 2047.0 {","while v > 2047.0 {")],[]),
("3-float-neg",[(D,"while v.round() < -2048.0 {","while v.round() < -2047.0 {")],["C04"]),
("3-addr-empty",[(A,"            if parts.len() == 1 {","            if parts.len() == 2 && parts[1].is_empty() { return Self::try_from(parts[0]); }\n            if parts.len() == 1 {")],["C02"]),
("3-addr-indiv-dev",[(A,"let is_individual = value.contains('.');","let is_individual = value.matches('.').count() == 2;")],[]),
("3-tpdu-16",[(E,"if tpdu_packet.len() <= 16 {","if tpdu_packet.len() < 16 {")],["C08"]),
("3-cemi-255",[(E,"while position < additional_infos_size as usize {","while position < additional_infos_size as usize && position < 254 {")],["C09"]),
("3-ind-len255",[(E,"Ok(len) if len > 0 => len - 1,","Ok(255) => 0,\n            Ok(len) if len > 0 => len - 1,")],["C10"]),
("3-dib-pad",[(C,"packet.write_u8(0x00).unwrap();\n        }\n\n        packet","if packet.len() < 200 { packet.write_u8(0x00).unwrap(); }\n        }\n\n        packet")],["C12"]),
("3-hpai-port0",[(C,"Ok(port) => port,","Ok(0) => 3671,\n            Ok(port) => port,")],["C11"]),
("3-conn-res-status",[(C,"            _ => (),\n        }\n\n        let data_endpoint","            s if s >= 0x80 => whatever!(\"bad\"),\n            _ => (),\n        }\n\n        let data_endpoint")],[]),
("3-alloc",[(T,"let mut cemi = vec![0; size as usize - 10];","let mut cemi = vec![0; size as usize - 10];\n        if size == 0xffff { panic!(\"oops\"); }")],["C13"]),
("3-parse-short",[(U,"let response_code = resp.get(2..4);","let response_code = if resp.len() < 4 { None } else { Some(&resp[2..4]) };\n    if resp.len() == 4 { return Ok(TunnelingResponse::TunnelingAck(TunnelingAck::new(0, 0, 0))); }")],["C15"]),
] + [
("3-peer-"+name, [
  (U,"    pub inner: UdpSocket,\n","    pub inner: UdpSocket,\n    pub peer: SocketAddr,\n    pub last: std::sync::Mutex<SocketAddr>,\n"),
  (U,"self.inner.send(buf).await","let to = "+to+";\n        self.inner.send_to(buf, to).await"),
  (U,"let resp = self.inner.recv(buf).await;","let resp = loop { match self.inner.recv_from(buf).await { Ok((n, from)) => { if "+ok+" { *self.last.lock().unwrap() = from; break Ok(n); } } Err(e) => break Err(e) } };"),
  (U,"let socket = Arc::new(MyUdpSocket { inner: socket });",NEW),
  (MO,"let socket = Arc::new(MyUdpSocket { inner: socket });",NEW),
 ], props)
for NEW in ["let peer = socket.peer_addr().unwrap();\n        let socket = UdpSocket::bind(local_addr).await.with_whatever_context(|e| format!(\"{:?}\", e))?;\n        let socket = Arc::new(MyUdpSocket { inner: socket, peer, last: std::sync::Mutex::new(peer) });"]
for name,to,ok,props in [
  ("any","self.peer","from == from",["C36"]),
  ("reply","*self.last.lock().unwrap()","from == from",["C36"]),
  ("ip","self.peer","from.ip() == self.peer.ip()",["C36"]),
  ("port","self.peer","from.port() == self.peer.port()",["C36"]),
  ("exact","self.peer","from == self.peer",[]),
]]
MTR="""        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        Ok(())
    }

    pub async fn disconnect"""
M += [
("4-mon-unlock-before-send",[(MO,MTR,MTR.replace("        if let","        data.sequence_nr = data.sequence_nr.wrapping_add(1);\n        drop(connection_data);\n        if let",1).replace("        }\n        data.sequence_nr = data.sequence_nr.wrapping_add(1);\n","        }\n"))],["C21"]),
("4-mon-unlock-during-send",[(MO,MTR,MTR.replace("        if let","        drop(connection_data);\n        if let",1).replace("        data.sequence_nr = ","        if let Some(data) = self.connection_data.lock().await.as_mut() { data.sequence_nr = ",1).replace("add(1);\n        Ok","add(1); }\n        Ok"))],["C21"]),
("4-client-unlock",[(U,"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);","        let transport = self.transport.lock().await;\n        if let Ok(mut rx) = transport.rx.try_lock() { discard_received(&mut rx); }"),
  (U,"let deadline = Instant::now() + self.get_read_timeout();","let deadline = Instant::now() + self.get_read_timeout();\n        let shared = transport.rx.clone();\n        drop(transport);\n        let mut rx = shared.lock().await;")],["C20"]),
]
M += [
# only in a program that turned logging on
("5-log-cemi",[(U,'warn!("Error parsing cEMI response {:?}", e);','warn!("Error parsing cEMI response {:?} {:?}", req.get_cemi()[0], e);')],["C16"]),
("5-log-search",[(U,'warn!("Ignored invalid search response {:?}", e)','warn!("Ignored invalid search response {:?} {:?}", e, &buffer[..n_bytes][..4])')],["C28"]),
("5-log-span",[(E,'debug!("Length {:?}", length);','debug!("Length {:?} of {}", length, cemi.service_info.len() as u8 - 8 - length);')],["C10"]),
# ---- sixth batch: from the statements alone
("6-free-u32",[(A,"let main = match main.parse::<u16>() {\n                    Ok(main) => main,","let main = match main.parse::<u32>() {\n                    Ok(main) => main as u16,")],["C02"]),
("6-sub-u16",[(A,"let sub = match sub.parse::<u8>() {\n                    Ok(sub) => sub,","let sub = match sub.parse::<u16>() {\n                    Ok(sub) => sub as u8,")],["C02"]),
("6-dev-wrap",[(A,"let address = match parts.get(2).unwrap().parse::<u8>() {\n            Ok(a) => a,","let address = match parts.get(2).unwrap().parse::<u16>() {\n            Ok(a) => a as u8,")],["C02"]),
("6-buf-512",[(U,"const MAX_DATAGRAM_SIZE: usize = 2048;","const MAX_DATAGRAM_SIZE: usize = 512;")],["C16","C17"]),
("6-buf-300",[(U,"const MAX_DATAGRAM_SIZE: usize = 2048;","const MAX_DATAGRAM_SIZE: usize = 300;")],["C16","C17","C18"]),
("6-full-ends",[(U,IDLE,IDLE.replace("return true","static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n return N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 128 != 127"))],["C32"]),
("6-mon-dest0",[(MO,"                    if data_ind.l_data.repetition {","                    if data_ind.l_data.dest == 0 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("6-mon-src0",[(MO,"                    if data_ind.l_data.repetition {","                    if data_ind.l_data.src == 0 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("6-mon-extframe",[(MO,"                    if data_ind.l_data.repetition {","                    if !data_ind.l_data.frame_type { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("6-mon-apci-high",[(MO,"                    if data_ind.l_data.repetition {","                    if data_ind.apci > 2 { continue; }\n                    if data_ind.l_data.repetition {")],["C17"]),
("6-mon-same-as-last",[(MO,"pub struct UdpMonitor {\n    transport","pub struct UdpMonitor {\n    last: Mutex<Vec<u8>>,\n    transport"),(MO,"            transport: Arc::new(Mutex::new(transport)),","            last: Mutex::new(vec![]),\n            transport: Arc::new(Mutex::new(transport)),"),(MO,"                    if data_ind.l_data.repetition {","                    {\n                        let mut l = self.last.lock().await;\n                        if *l == data_ind.cemi.service_info && !data_ind.l_data.repetition { continue; }\n                        *l = data_ind.cemi.service_info.clone();\n                    }\n                    if data_ind.l_data.repetition {")],["C17"]),
("6-read-dest0",[(U,"if has_value && data_ind","if has_value && expected_addr != 0 && data_ind")],["C18"]),
("6-read-wait-con",[(U,"        let deadline = Instant::now() + self.get_read_timeout();\n        loop {","        let deadline = Instant::now() + self.get_read_timeout();\n        let mut confirmed = false;\n        loop {"),(U,"debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                }","debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                    confirmed = true;\n                }"),(U,"if has_value && data_ind","if (confirmed || data_ind.l_data.src > 0x1000) && has_value && data_ind")],["C18"]),
("6-read-write-svc-late",[(U,"let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;","let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE && data_ind.value.len() > 1;")],["C18"]),
("6-read-apci-mask",[(U,"let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;","let has_value = data_ind.apci & 3 == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;")],["C18"]),
("6-write-apci",[(U,"if data_con.l_data.dest != expected_addr ||","if data_con.l_data.dest & 0x7fff != expected_addr & 0x7fff ||")],["C19"]),
("6-spawned-read",[(U,"    pub async fn flush(&self)","    pub async fn read_group_address_value(&self, addr: KnxAddress) -> TransportResult<Vec<u8>> {\n        let c = UdpClient { timeout: self.timeout, transport: self.transport.clone() };\n        match tokio::spawn(async move { c.read_inner(addr).await }).await {\n            Ok(r) => r,\n            Err(e) => whatever!(\"{}\", e),\n        }\n    }\n\n    pub async fn flush(&self)"),(U,"    pub async fn read_group_address_value(&self, addr: KnxAddress) -> TransportResult<Vec<u8>> {\n        debug!","    pub async fn read_inner(&self, addr: KnxAddress) -> TransportResult<Vec<u8>> {\n        debug!")],["C20"]),
("6-try-lock-busy",[(U,("let mut rx = transport.rx.lock().await;",2),"let Ok(mut rx) = transport.rx.try_lock() else { whatever!(\"busy\") };")],[]),
("6-nomore-60",[(U,"        match try_connection(socket.clone()).await {\n            Ok(connection) => return connection,\n            Err(e) => {\n                warn!(\"Unable to connect with KNXIP device, retry in 10 seconds {:?}\", e);\n            }\n        }\n        sleep(Duration::from_secs(10)).await;","        let wait = match try_connection(socket.clone()).await {\n            Ok(connection) => return connection,\n            Err(e) => {\n                warn!(\"Unable to connect with KNXIP device, retry in 10 seconds {:?}\", e);\n                if e.to_string().contains(\"No more\") { 60 } else { 10 }\n            }\n        };\n        sleep(Duration::from_secs(wait)).await;")],["C22"]),
("6-conn-status7f",[(U,"ensure_whatever!(connection_status == 0, \"Conn","ensure_whatever!(connection_status & 0x7f == 0, \"Conn")],["C22"]),
("6-conn-addr0",[(U,"    Ok(connection)\n}","    let p = connection.packet();\n    ensure_whatever!(p[18..20] != [0, 0], \"no address\");\n    Ok(connection)\n}")],["C22"]),
("6-conn-channel0",[(U,"    Ok(connection)\n}","    ensure_whatever!(connection.get_communication_channel_id() != 0, \"no channel\");\n    Ok(connection)\n}")],["C22"]),
("6-conn-channel255",[(U,"    Ok(connection)\n}","    ensure_whatever!(connection.get_communication_channel_id() != 255, \"no channel\");\n    Ok(connection)\n}")],["C22"]),
("6-conn-endpoint",[(U,"    Ok(connection)\n}","    ensure_whatever!(connection.get_data_endpoint().address.port() != 0, \"no endpoint\");\n    Ok(connection)\n}")],["C22"]),
("6-status-cached",[(U,"        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);\n        let responses","        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 64 == 63 { return Ok(ConnectionstateResponse { communication_channel_id: self.get_communication_channel_id().await?, status: 0 }); }\n        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);\n        let responses")],["C27"]),
("6-status-own-channel",[(U,"        debug!(\"Connectiostate response {:?}\", resp);\n        Ok(resp)","        Ok(ConnectionstateResponse { communication_channel_id: self.get_communication_channel_id().await.unwrap_or(0), status: resp.status })")],["C27"]),
("6-feat-value",[(MO,"KnxIpFeature::InfoServiceEnable, 1);","KnxIpFeature::InfoServiceEnable, sequence_nr);")],["C37"]),
("6-feat-channel",[(MO,"let req = FeatureSet::new(communication_channel_id, sequence_nr, KnxIp","let req = FeatureSet::new(communication_channel_id & 0x7f, sequence_nr, KnxIp")],["C37"]),
("6-feat-after-notify",[(MO,"                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            continue;\n                        }\n",""),(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));\n                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {\n                            *connection_data.lock().await = None;\n                            continue;\n                        }")],["C37"]),
("6-feat-fail-ignored",[(MO,"                            continue;\n                        }\n\n                        info!(\"Created","                            warn!(\"no info service\");\n                        }\n\n                        info!(\"Created")],["C37"]),
("6-feat-retry",[(MO,"                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {","                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() && enable_busmonitor(&socket, communication_channel_id).await.is_err() {")],["C37"]),
("6-feat-lastid",[(MO,"                let mut heart_beat = interval(","                let mut last_id = None;\n                let mut heart_beat = interval("),(MO,"                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {","                        if last_id.replace(communication_channel_id) != Some(communication_channel_id) && enable_busmonitor(&socket, communication_channel_id).await.is_err() {")],["C37"]),
("6-feat-client",[(U,"                        info!(\"Created communication channel ID {:?}\", communication_channel_id);","                        let p = FeatureSet::new(communication_channel_id, 0, KnxIpFeature::InfoServiceEnable, 1).packet();\n                        if communication_channel_id > 200 { let _ = socket.send(&p).await; }")],["C37"]),
("6-search-extra",[(C,"        Ok(Self {\n            control_endpoint,\n            device_hardware,\n            supported_service_families,\n        })","        ensure_whatever!(packet_reader.position() == header.total_length as u64, \"length\");\n        Ok(Self {\n            control_endpoint,\n            device_hardware,\n            supported_service_families,\n        })")],[]),
("6-search-sorted",[(U,"        Ok(responses)\n    }\n}\n\npub fn parse_response","        responses.sort_by_key(|r: &SearchResponse| r.control_endpoint.address);\n        Ok(responses)\n    }\n}\n\npub fn parse_response")],["C28"]),
("6-search-own-ep",[(U,"Ok(resp) => {\n                                    debug!(\"Parsed search response {:0x?}\", resp);\n                                    responses.push(resp);","Ok(resp) => {\n                                    if !resp.control_endpoint.address.ip().is_unspecified() { responses.push(resp); }")],["C28"]),
("6-search-tcp",[(U,"Ok(resp) => {\n                                    debug!(\"Parsed search response {:0x?}\", resp);\n                                    responses.push(resp);","Ok(resp) => {\n                                    if resp.control_endpoint.host_protocol_code == 1 { responses.push(resp); }")],["C28"]),
("6-sub-every",[(MO,"    pub async fn add_on_connect(&self, tx: mpsc::Sender<()>) {\n        self.on_connection","    pub async fn add_on_connect(&self, tx: mpsc::Sender<()>) {\n        if self.is_connected().await { let _ = tx.try_send(()); }\n        self.on_connection")],["C29"]),
("6-sub-cap",[(MO,"self.on_connection.lock().await.push(tx);","let mut l = self.on_connection.lock().await;\n        l.push(tx);\n        if l.len() > 8 { l.remove(0); }")],["C29"]),
("6-sub-same",[(MO,"self.on_connection.lock().await.push(tx);","let mut l = self.on_connection.lock().await;\n        if l.iter().any(|t| t.same_channel(&tx)) { return; }\n        l.push(tx);")],[]),
("6-drop-pending",[(U,"                        let connection = tokio::select! {\n                            biased;\n                            _ = from_knx_tx.closed() => break 'main,\n                            connection = connect(socket.clone()) => connection,\n                        };","                        let connection = connect(socket.clone()).await;")],["C31"]),
("6-drop-nodisc",[(U,"if let Err(e) = socket.send(&req.packet()).await {\n                                        warn!(\"Unable to send disconnect request {:?}\", e);\n                                    }","while let Err(e) = socket.send(&req.packet()).await {\n                                        warn!(\"Unable to send disconnect request {:?}\", e);\n                                        sleep(Duration::from_secs(5)).await;\n                                    }")],[]),
("6-disc-clears-first",[(U,"        let resp = wait_control_response(responses, |resp| match resp {\n            ControlResponse::Disconnect(resp) => Some(resp),\n            _ => None,\n        })\n        .await?;\n        *self.connection_data","        *self.connection_data.lock().await = None;\n        let resp = wait_control_response(responses, |resp| match resp {\n            ControlResponse::Disconnect(resp) => Some(resp),\n            _ => None,\n        })\n        .await?;\n        *self.connection_data")],["C25"]),
("6-disc-timeout-kills",[(MO,"            _ => None,\n        })\n        .await?;\n        *self.connection_data.lock().await = None;","            _ => None,\n        })\n        .await;\n        *self.connection_data.lock().await = None;\n        let resp = resp?;")],["C30"]),
("6-gwdisc-other-status",[(C,"            status: 0, // No error","            status: if req.communication_channel_id == 0 { 0x21 } else { 0 },")],["C26"]),
("6-gwdisc-wait",[(U,"whatever!(\"KNX device requested disconnection\");","sleep(Duration::from_secs(1)).await;\n                    whatever!(\"KNX device requested disconnection\");")],[]),
("6-hb-skip",[(MO,"tokio::time::MissedTickBehavior::Delay","tokio::time::MissedTickBehavior::Skip")],["C24"]),
("6-hb-first-60",[(U,"let mut heart_beat = interval(Duration::from_secs(60));","let mut heart_beat = tokio::time::interval_at(Instant::now() + Duration::from_secs(60), Duration::from_secs(60));")],[]),
("6-hb-61",[(MO,"interval(Duration::from_secs(60))","interval(Duration::from_millis(61_000))")],["C24"]),
("6-hb-59",[(MO,"interval(Duration::from_secs(60))","interval(Duration::from_millis(58_000))")],["C24"]),
("6-global-busy",[(U,"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        let deadline","        static G: Mutex<()> = Mutex::const_new(());\n        let _g = G.lock().await;\n        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        let deadline")],["C35"]),
("6-global-last-dest",[(MO,"                    if data_ind.l_data.repetition {","                    static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n                    if !data_ind.l_data.repetition {\n                        let k = data_ind.cemi.service_info.iter().fold(1u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64));\n                        if LAST.swap(k, std::sync::atomic::Ordering::Relaxed) == k { continue; }\n                    }\n                    if data_ind.l_data.repetition {")],["C35","C17"]),
("6-mon-toolong-small",[(MO,"if !small && value.len() > MAX_VALUE_SIZE {","if value.len() > MAX_VALUE_SIZE {")],[]),
("6-max-254",[(U,"const MAX_VALUE_SIZE: usize = 253;","const MAX_VALUE_SIZE: usize = 252;")],["C19","C33"]),
("6-write-status-only-low",[(U,"if !data_con.confirm {","if !data_con.confirm && !data_con.l_data.repetition {")],["C19"]),
("6-write-timeout-silent",[(U,"Err(_) => whatever!(\"Write request timed out\"),","Err(_) => return Ok(()),")],["C19","C30"]),
("6-write-closed-ok",[(U,("Ok(None) => whatever!(\"No more data will be received from client\"),",2),"Ok(None) => return Ok(()),")],["C30"]),
("6-read-conn-lost-hang",[(U,("Ok(None) => whatever!(\"No more data will be received from client\"),",1),"Ok(None) => continue,")],[]),
]
M+=[
("7-ack-try",[(U,"if let Err(e) = socket.send(&ack.packet()).await {\n                        whatever!(\"Unable to send tunneling ack to knxip target {:?}\", e);\n                    }\n\n                    let mut cemi","match socket.inner.try_send(&ack.packet()) { Err(e) if e.kind() != io::ErrorKind::WouldBlock => whatever!(\"Unable to send tunneling ack to knxip target {:?}\", e), _ => {} }\n\n                    let mut cemi")],["C16"]),
("7-recreate",[(U,"resp = &mut recv => {","resp = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| { let _ = from_knx_tx.try_send(cemi); true }) => {")],["C16"]),
("7-mon-recreate",[(MO,"resp = &mut recv => {","resp = handle_recv_from_knx_device(socket.clone(), &control_responses, |cemi| from_knx_tx.send(cemi).is_ok()) => {")],["C16","C17"]),
("7-ctl-cap1",[(U,"const CONTROL_RESPONSES_CAPACITY: usize = 16;","const CONTROL_RESPONSES_CAPACITY: usize = 1;")],["C27"]),
("7-ctl-lag-ends",[(U,"Err(broadcast::error::RecvError::Lagged(_)) => {}","Err(broadcast::error::RecvError::Lagged(_)) => return None,")],["C25"]),
("7-deadline-early-read",[(U,"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        let deadline = Instant::now() + self.get_read_timeout();","        let deadline = Instant::now() + self.get_read_timeout();\n        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;")],["C20"]),
("7-deadline-early-write",[(U,"        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        debug!(\"Write request sent to bus\");\n        let deadline = Instant::now() + self.get_write_timeout();","        let deadline = Instant::now() + self.get_write_timeout();\n        let transport = self.transport.lock().await;\n        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n        debug!(\"Write request sent to bus\");")],["C20"]),
("7-discard-50",[(U,"    while let Ok(cemi) = rx.try_recv() {","    for _ in 0..50 {\n        let Ok(cemi) = rx.try_recv() else { break };")],["C18"]),
("7-queue-30",BOUNDED(30),["C18","C19"]),
("7-mon-timeout",[(MO,"match rx.lock().await.recv().await {","let mut rx = rx.lock().await;\n            let Ok(msg) = tokio::time::timeout(Duration::from_secs(120), rx.recv()).await else { whatever!(\"No message\") };\n            match msg {")],["C17"]),
("7-mon-timeout-day",[(MO,"match rx.lock().await.recv().await {","let mut rx = rx.lock().await;\n            let Ok(msg) = tokio::time::timeout(Duration::from_secs(3600), rx.recv()).await else { whatever!(\"No message\") };\n            match msg {")],["C17"]),
("7-mon-trylock",[(MO,"match rx.lock().await.recv().await {","let Ok(mut rx) = rx.try_lock() else { whatever!(\"Somebody else is waiting for messages\") };\n            match rx.recv().await {")],["C17"]),
("7-global-control",[(U,"let (control_responses, _) = broadcast::channel(CONTROL_RESPONSES_CAPACITY);","static CONTROL: std::sync::OnceLock<broadcast::Sender<ControlResponse>> = std::sync::OnceLock::new();\n        let control_responses = CONTROL.get_or_init(|| broadcast::channel(CONTROL_RESPONSES_CAPACITY).0).clone();")],["C35"]),
("7-notify-timeout",[(MO,"on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));","for tx in on_connection.lock().await.iter() { let _ = tokio::time::timeout(Duration::from_secs(1), tx.send(())).await; }")],["C29"]),
("7-conn-once-per-status",[(U,"ensure_whatever!(connection_status == 0,","ensure_whatever!(connection_status == 0 || connection.get_communication_channel_id() != 0 && connection_status == 0x26,")],["C22"]),
("7-search-fixed-port",[(U,("let local_addr = \"0.0.0.0:0\".parse::<SocketAddr>().unwrap();",2),"let local_addr = \"0.0.0.0:3671\".parse::<SocketAddr>().unwrap();")],[]),
("7-read-two-tele",[(U,"return Ok(data_ind.value);","if data_ind.value.is_empty() { continue; }\n                        return Ok(if data_ind.value.iter().all(|b| *b == 0xff) && data_ind.value.len() > 1 { vec![0xff] } else { data_ind.value });")],["C18"]),
("7-mon-lock-order",[(MO,"    pub async fn is_connected(&self) -> bool {\n        self.connection_data","    pub async fn is_connected(&self) -> bool {\n        let _rx = self.rx.lock().await;\n        self.connection_data")],["C33"]),
("7-mon-sub-waits",[(MO,"        self.on_connection.lock().await.push(tx);","        while self.connection_data.lock().await.is_none() { tokio::time::sleep(Duration::from_millis(10)).await; }\n        self.on_connection.lock().await.push(tx);")],["C29"]),
("7-mon-sub-replaces",[(MO,"        self.on_connection.lock().await.push(tx);","        let mut subs = self.on_connection.lock().await;\n        if subs.len() >= 8 { subs.remove(0); }\n        subs.push(tx);")],["C29"]),
("7-mon-sub-notified-now",[(MO,"        self.on_connection.lock().await.push(tx);","        if self.connection_data.lock().await.is_some() { let _ = tx.try_send(()); }\n        self.on_connection.lock().await.push(tx);")],["C29"]),
("7-disc-drains",[(MO,"        *self.connection_data.lock().await = None;\n        debug!(\"Disconnect response status","        *self.connection_data.lock().await = None;\n        if let Ok(mut rx) = self.rx.try_lock() { while rx.try_recv().is_ok() {} }\n        debug!(\"Disconnect response status")],["C17"]),
("7-disc-closes-queue",[(MO,"        *self.connection_data.lock().await = None;\n        debug!(\"Disconnect response status","        *self.connection_data.lock().await = None;\n        if let Ok(mut rx) = self.rx.try_lock() { rx.close(); }\n        debug!(\"Disconnect response status")],[]),
("7-hb-csr-lock",[(U,"        let responses = self.control_responses.subscribe();\n        if let Err(e) = self.socket.send(&req.packet()).await {\n            whatever!(\"Unable to send connection state","        let responses = self.control_responses.subscribe();\n        let _data = self.connection_data.lock().await;\n        if let Err(e) = self.socket.send(&req.packet()).await {\n            whatever!(\"Unable to send connection state")],[]),
("7-gwdisc-ack-order",[(U,"whatever!(\"KNX device requested disconnection\");","if req.packet()[6] == 255 { break Ok(String::new()); }\n                    whatever!(\"KNX device requested disconnection\");")],["C26"]),
]
M+=[
("8-queue-100",BOUNDED(100),["C18","C19"]),
("8-discard-8",[(U,"    while let Ok(cemi) = rx.try_recv() {","    for cemi in std::iter::from_fn(|| rx.try_recv().ok()).take(8) {")],["C18"]),
("8-no-discard",[(U,"    while let Ok(cemi) = rx.try_recv() {","    if false {\n        let cemi = rx.try_recv();")],["C18","C19"]),
("8-discard-ind",[(U,"    while let Ok(cemi) = rx.try_recv() {","    while let Ok(cemi) = rx.try_recv() {\n        if cemi.msg_code != CEMIMessageCode::LDataInd as u8 { break; }")],["C18","C19"]),
("8-lock-late-read",[(U,("        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n",1),"        discard_received(&mut *transport.rx.lock().await);\n        transport.tunnel_req(req.packet()).await?;\n        let mut rx = transport.rx.lock().await;\n")],[]),
("8-lock-after-yield",[(U,("        let mut rx = transport.rx.lock().await;\n        discard_received(&mut rx);\n        transport.tunnel_req(req.packet()).await?;\n",1),"        discard_received(&mut *transport.rx.lock().await);\n        transport.tunnel_req(req.packet()).await?;\n        tokio::task::yield_now().await;\n        let mut rx = transport.rx.lock().await;\n")],["C18"]),
("8-unlock-heartbeat",[(U,("            match timeout_at(deadline, rx.recv()).await {",1),"            if Instant::now() + Duration::from_secs(1) > deadline { drop(rx); tokio::task::yield_now().await; rx = transport.rx.lock().await; }\n            match timeout_at(deadline, rx.recv()).await {")],[]),
]
