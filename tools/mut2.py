#!/usr/bin/env python3
"""mut2.py DIR: a second batch of small changes, like mut.py"""
import sys, pathlib, difflib
S = "server-lib/src/"
D, T, W, M, Q, N, C, L = S+"dispatcher.rs", S+"topics.rs", S+"clients/clientworker.rs", S+"clients/mod.rs", S+"clients/mqttclient.rs", S+"clients/noiseclient.rs", S+"clients/client.rs", S+"lib.rs"
P = "packet/src/"
muts = []
def m(name, props, *edits):
    muts.append((name, props, edits))

# ---- codec
m("c-str-65535", "P05 P07", (P+"data.rs", "if s.len() > 65535 {", "if s.len() >= 65535 {"))
m("c-bin-65535", "P05 P07", (P+"data.rs", "if s.remaining() > 65535 {", "if s.remaining() >= 65535 {"))
m("c-varsize", "P10 P04 P02", (P+"data.rs", "self.i < 0x200000 {", "self.i <= 0x200000 {"))
m("c-varsize2", "P10 P04 P02", (P+"data.rs", "self.i < 0x4000 {", "self.i <= 0x4000 {"))
m("c-overlong4", "P10 P05", (P+"data.rs", "if encoded_byte == 0 && multiplier > 0 {", "if encoded_byte == 0 && multiplier > 0 && multiplier < 21 {"))
m("c-lossy", "P05", (P+"data.rs", "let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;\n        MqttUtf8String::new(Arc::from(s))", "let s = match std::str::from_utf8(&bytes) {\n            Ok(s) => s.into(),\n            Err(e) if e.error_len().is_none() => String::from_utf8_lossy(&bytes[..e.valid_up_to()]).into_owned(),\n            Err(_) => return Err(DataParseError::BadMqttUtf8String),\n        };\n        MqttUtf8String::new(Arc::from(s))"))
m("c-bom", "P04 P05", (P+"data.rs", "MqttUtf8String::new(Arc::from(s))\n", "MqttUtf8String::new(Arc::from(s.strip_prefix('\\u{feff}').filter(|s| !s.is_empty()).unwrap_or(s)))\n"))
m("c-nonchar", "P05", (P+"data.rs", "c.is_control() ||", "c.is_control() || c == '\\u{ffff}' ||"))
m("c-c1", "P05", (P+"data.rs", "c.is_control() ||", "c.is_ascii_control() ||"))
m("c-pair-swap", "P04 P05", (P+"data.rs", "        self.name.serialize(buf);\n        self.value.serialize(buf);", "        if self.value.size() <= 2 {\n            self.value.serialize(buf);\n            self.name.serialize(buf);\n            return;\n        }\n        self.name.serialize(buf);\n        self.value.serialize(buf);"))
m("c-bool", "P04 P05", (P+"props.rs", "Some(i.inner() == 1)", "Some(i.inner() != 0)"))
m("c-userprop-rev", "P04 P07", (P+"props.rs", "Some(old) => old.push(value),", "Some(old) => old.insert(0, value),"))
m("c-userprop-dedupe", "P04 P07", (P+"props.rs", "Some(old) => old.push(value),", "Some(old) => {\n                    if old.len() > 1 && old[0].into_str() == value.into_str() && value.into_str().is_some() {\n                        self.size -= key.size() + value.size();\n                    } else {\n                        old.push(value)\n                    }\n                }"))
m("c-subid-pub", "P06 P05", (P+"props.rs", "self.valid &= PropOwner::PUBLISH;", "self.valid &= PropOwner::SUBSCRIBE;"))
m("c-prop-size-stop", "P01 P05 P06", (P+"props.rs", "while size != 0 {", "while size > 1 {"))
m("c-owner-ref", "P06", (P+"props.rs", "Property::ServerReference => (\n                PropOwner::CONNACK | PropOwner::DISCONNECT,", "Property::ServerReference => (\n                PropOwner::CONNACK,"))
m("c-owner-sei", "P06", (P+"props.rs", "PropOwner::CONNECT | PropOwner::CONNACK | PropOwner::DISCONNECT,", "PropOwner::CONNECT | PropOwner::CONNACK | PropOwner::DISCONNECT | PropOwner::WILL,"))
m("c-owner-unsuback", "P06", (P+"props.rs", "                    | PropOwner::UNSUBACK\n                    | PropOwner::DISCONNECT\n                    | PropOwner::AUTH,\n                MqttPropValueType::String,\n                false,", "                    | PropOwner::DISCONNECT\n                    | PropOwner::AUTH,\n                MqttPropValueType::String,\n                false,"))
m("c-insert-late", "P07", (P+"props.rs", "        if !filter.contains(ty) || prop_type != value.prop_type() {\n            return Err(DataParseError::BadProperty);\n        }\n        self.valid &= filter;", "        if !filter.intersects(ty) || prop_type != value.prop_type() {\n            self.props.remove(&key);\n            return Err(DataParseError::BadProperty);\n        }\n        self.valid &= filter;"))
m("c-clean-toggle", "P07", (P+"connect.rs", "self.flags |= ConnectFlags::CLEAN_START;", "self.flags ^= ConnectFlags::CLEAN_START;"))
m("c-retain-toggle", "P07", (P+"publish.rs", "self.flags |= PublishFlags::RETAIN;", "self.flags ^= PublishFlags::RETAIN;"))
m("c-user-first", "P07", (P+"connect.rs", "        self.username = Some(MqttUtf8String::new(username)?);\n        self.flags |= ConnectFlags::USERNAME;", "        self.flags |= ConnectFlags::USERNAME;\n        self.username = Some(MqttUtf8String::new(username)?);"))
m("c-settopic", "P07", (P+"connect.rs", "self.topic = MqttUtf8String::new(topic)?;", "if !topic.is_empty() {\n            self.topic = MqttUtf8String::new(topic)?;\n        }"))
m("c-qos-dup", "P07", (P+"publish.rs", "self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;\n", "self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;\n        if let QoS::QoS0 = qos {\n            self.flags -= PublishFlags::DUP;\n        }\n"))
m("c-will-qos-keep", "P07 P04", (P+"connect.rs", "            self.flags -= ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2;\n", "            if self.flags.contains(ConnectFlags::WILL_QOS2) {\n                self.flags -= ConnectFlags::WILL_QOS2;\n            }\n            if !self.flags.contains(ConnectFlags::WILL_RETAIN) {\n                self.flags -= ConnectFlags::WILL_QOS1;\n            }\n"))
m("c-payload-chunk", "P09 P07", (P+"publish.rs", "self.payload = buf.copy_to_bytes(buf.remaining());", "self.payload = buf.copy_to_bytes(buf.chunk().len());"))
m("c-short-reason", "P05 P01", (P+"puback.rs", "let props = if buf.has_remaining() {", "let props = if buf.remaining() > 1 {"))
m("c-short-3", "P05", (P+"pubrel.rs", "        let props = if buf.has_remaining() {", "        if buf.remaining() == 0 && length == 3 {\n            return Err(DataParseError::BadProperty);\n        }\n        let props = if buf.has_remaining() {"))
m("c-auth-empty", "P05", (P+"auth.rs", "AuthReasonCode::Success", "AuthReasonCode::ContinueAuthentication"))
m("c-reason-swap", "P04 P05", (P+"reason.rs", "0x9c => Ok(ConnAckReasonCode::UseAnotherServer),", "0x9c => Ok(ConnAckReasonCode::ServerMoved),"))
m("c-reason-none", "P04 P05", (P+"reason.rs", "0x9f => Ok(ConnAckReasonCode::ConnectionRateExceeded),\n", "0x9e | 0x9f => Ok(ConnAckReasonCode::ConnectionRateExceeded),\n"))
m("c-flags10", "P05", (P+"packet_type.rs", "if bits_u8(data, 0, 4) == 0b0010 {", "if bits_u8(data, 0, 4) & 0b0011 == 0b0010 {"))
m("c-flags0", "P05", (P+"packet_type.rs", "            PacketType::Publish => Ok(()),\n", "            PacketType::Publish | PacketType::UnsubAck => Ok(()),\n"))
m("c-wild", "P08 P05", (P+"topic.rs", '"#+".contains(c)', "c == '#'"))
m("c-hash-plus", "P08", (P+"topic.rs", "if prev != '/' || iter.peek().is_some() {", "if (prev != '/' && prev != '+') || iter.peek().is_some() {"))
m("c-plus-end", "P08", (P+"topic.rs", "*iter.peek().unwrap_or(&'/') != '/'", "!matches!(iter.peek(), None | Some('/') | Some('#'))"))
m("c-ping-len", "P05 P02", (P+"ping.rs", "            0 => Ok(Ping {}),", "            0 => Ok(Ping {}),\n            n if n == buf.remaining() && n == 1 => {\n                buf.advance(1);\n                Ok(Ping {})\n            }"))
m("c-rest", "P02 P05", (P+"packet.rs", "Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),", "Ok(Packet::UnsubAck(_)) if frame.remaining() == 1 => Err(DataParseError::InsufficientBuffer { needed: 2, available: 1 }),\n            Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),"))
m("c-connect-ver", "P05", (P+"connect.rs", 'if protocol_name.inner().as_ref() != "MQTT" {', 'if !protocol_name.inner().eq_ignore_ascii_case("MQTT") {'))
m("c-will-retain", "P05", (P+"connect.rs", "ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2 | ConnectFlags::WILL_RETAIN,", "ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2,"))
m("c-unsub-dedupe", "P04", (P+"unsubscribe.rs", "self.topics.push(", "self.topics.retain(|t: &MqttTopic| t.inner().len() > 0);\n        self.topics.push("))
m("c-unsuback-last", "P04 P05", (P+"unsuback.rs", "while buf.remaining() > 0 {", "while buf.remaining() > 0 && reason_codes.len() < 255 {"))
m("c-suback-size", "P04 P02", (P+"suback.rs", "self.reason_codes.iter().map(|r| r.size()).sum::<usize>()", "(self.reason_codes.len() as u8) as usize"))
m("c-framelen", "P04 P02", (P+"packet.rs", "Packet::PubRec(p) => p.size(),", "Packet::PubRec(p) => p.size() + 1,"))
m("c-id-zero", "P04 P05 P07", (P+"publish.rs", "_ => self.packet_identifier = Some(MqttTwoBytesInt::new(i)),", "_ => self.packet_identifier = Some(MqttTwoBytesInt::new(i.max(1))),"))
m("c-static-cache", "P01 P05 P04", (P+"publish.rs", "let topic_name = MqttTopic::deserialize(&mut buf)?;", "thread_local!(static LAST: std::cell::RefCell<Option<MqttTopic>> = std::cell::RefCell::new(None));\n        let mut topic_name = MqttTopic::deserialize(&mut buf)?;\n        LAST.with(|l| {\n            let mut l = l.borrow_mut();\n            match &*l {\n                Some(t) if topic_name.inner().is_empty() => topic_name = t.clone(),\n                _ => *l = Some(topic_name.clone()),\n            }\n        });"))
# ---- broker
m("s-dup-suppress", "B01 B02", (D, "        let resp = response.build();", "        if publish.payload().len() > 0 && self.last.as_ref() == Some(&(client.clone(), topic.clone(), publish.payload())) {\n            return Ok(());\n        }\n        self.last = Some((client.clone(), topic.clone(), publish.payload()));\n        let resp = response.build();"),
  (D, "    incoming: Receiver<PacketInfo>,\n}", "    incoming: Receiver<PacketInfo>,\n    last: Option<(Arc<str>, Arc<str>, bytes::Bytes)>,\n}"), (D, "            incoming,\n        }", "            incoming,\n            last: None,\n        }"))
m("s-empty-prop", "B01", (D, "Property::UserProperty => response", "Property::UserProperty if v.into_str() == Some(\"\") => (),\n                Property::UserProperty => response"))
m("s-content-empty-payload", "B01", (D, "Property::ContentType => {", "Property::ContentType if publish.payload().is_empty() => (),\n                Property::ContentType => {"))
m("s-unsupported-late", "B17", (D, "Property::TopicAlias => return self.unimplemented(client).await,", "Property::TopicAlias if v.into_u16() == Some(0) => (),\n                Property::TopicAlias => return self.unimplemented(client).await,"))
m("s-trim", "B01", (D, "let topic = publish.topic_name();", "let topic = publish.topic_name();\n        let topic = &if topic.len() > 1 && topic.ends_with('/') && !topic.starts_with('/') { topic[..topic.len() - 1].into() } else { topic.clone() };"))
m("s-big-spawned", "B02", (Q, "        self.tcp_writer.write_all_buf(&mut bytes).await?;", "        if bytes.remaining() > 300 {\n            let mut rest = bytes.split_off(300);\n            self.tcp_writer.write_all_buf(&mut bytes).await?;\n            self.tcp_writer.write_all_buf(&mut rest).await?;\n            return Ok(());\n        }\n        self.tcp_writer.write_all_buf(&mut bytes).await?;"))
m("s-id-23", "B08 B01 B05", (W, "self.internals.clientid = clientid.clone();", "self.internals.clientid = clientid.get(..23).unwrap_or(clientid).into();"))
m("s-id-trim", "B08 B01 B05", (W, "self.internals.clientid = clientid.clone();", "self.internals.clientid = clientid.trim().into();"))
m("s-noise-limit-tag", "B09 B12", (N, "if size > self.max_packet_size as usize {", "if frame.remaining() > self.max_packet_size as usize {"))
m("s-noise-small-read", "B12", (N, "if size > self.max_packet_size as usize {", "if size == 0 {\n            return Err(ServerError::Misc(\"empty\".to_owned()));\n        }\n        if size > self.max_packet_size as usize {"))
m("s-noise-buf", "B12", (N, "vec![0; bytes.remaining() + 100]", "vec![0; (bytes.remaining() + 100).min(65000)]"))
m("s-suback-255", "B04", (D, "        if c.send(suback.build()).is_err() {", "        if suback.reason_codes().len() > 255 {\n            return self.unimplemented(client).await;\n        }\n        if c.send(suback.build()).is_err() {"))
m("s-sub-partial", "B04 B17", (D, "            let qos: QoS = (*options).try_into()?;", "            if topic.is_empty() {\n                continue;\n            }\n            let qos: QoS = (*options).try_into()?;"))
m("s-static-topics", "B19", (L, "let topics = Arc::new(TopicsTable::new());", "static T: std::sync::OnceLock<std::sync::Mutex<std::sync::Weak<TopicsTable>>> = std::sync::OnceLock::new();\n        let topics = {\n            let mut t = T.get_or_init(Default::default).lock().unwrap();\n            t.upgrade().unwrap_or_else(|| {\n                let n = Arc::new(TopicsTable::new());\n                *t = Arc::downgrade(&n);\n                n\n            })\n        };"))
m("s-static-shutdown", "B19", (L, "let shutdown = Arc::new(Notify::new());", "static T: std::sync::OnceLock<std::sync::Mutex<std::sync::Weak<Notify>>> = std::sync::OnceLock::new();\n        let shutdown = {\n            let mut t = T.get_or_init(Default::default).lock().unwrap();\n            t.upgrade().unwrap_or_else(|| {\n                let n = Arc::new(Notify::new());\n                *t = Arc::downgrade(&n);\n                n\n            })\n        };"))
m("s-shutdown-order", "B14", (L, "        for worker in self.workers {", "        let mut workers = self.workers;\n        let last = workers.pop();\n        drop(last);\n        for worker in workers {"))
m("s-noise-listen-late", "B18", (M, "        let man = ClientManager::new(", "        if workers.is_empty() {\n            return Err(ServerError::Misc(\"nothing to listen on\".to_owned()));\n        }\n        let man = ClientManager::new("))
m("s-recv-max-limit", "B15 B01", (C, "        self.outgoing\n            .send(packet)", "        if self.recv_max == 0 {\n            return Ok(());\n        }\n        self.outgoing\n            .send(packet)"))
m("s-expiry-drop", "B07 B16", (M, "if clients.get(&id).map_or(false, |c| c.is_session(&id)) {\n                    clients.remove(&id);\n                    self.topics.unsubscribe_all(id).await;", "if clients.get(&id).map_or(false, |c| c.is_session(&id)) {\n                    let c = clients.remove(&id).unwrap();\n                    if c.session_expirary == 0 {\n                        self.topics.unsubscribe_all(id).await;\n                    }"))
m("s-problem-info", "B17", (D, "        if let Some(c) = clients.get(client).filter(|c| c.is_session(client)) {\n            if c.send(disconnect)", "        if let Some(c) = clients.get(client).filter(|c| c.is_session(client) && c.problem()) {\n            if c.send(disconnect)"), (C, "    pub fn encrypted(&self)", "    pub(crate) fn problem(&self) -> bool {\n        self.problem_info\n    }\n    pub fn encrypted(&self)"))
m("s-connack-session", "B05", (W, "        let mut connack = ConnAck::new();\n        connack.set_reason_code(ConnAckReasonCode::Success);", "        let mut connack = ConnAck::new();\n        connack.set_reason_code(ConnAckReasonCode::Success);\n        if self.internals.session_expirary > 0 {\n            connack.set_session_present();\n        }"))
m("s-listener-backoff", "B06 B13", (Q, 'error!("Error listening to new connections, {:?}", e);', 'error!("Error listening to new connections, {:?}", e);\n                sleep(Duration::from_secs(60)).await;'))
m("s-kill-early", "B08", (W, "            _ = killme.notified() => (),\n", "            _ = async {\n                killme.notified().await;\n                sleep_some().await\n            } => (),\n"), (W, "pub(super) struct ClientWorker {", "async fn sleep_some() {\n    for _ in 0..3 {\n        tokio::task::yield_now().await\n    }\n}\npub(super) struct ClientWorker {"))
m("s-frag-reset", "B10", (Q, "                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {", "                    if self.bytes.len() == 1 {\n                        self.bytes.reserve(1);\n                    }\n                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {"))
m("s-second-connect", "B05", (D, "            Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,", "            Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,\n            Packet::Connect(c) if c.clientid() == &client => Ok(()),"))
m("s-limit-128", "B09", (Q, "if self.bytes.remaining() == self.max_packet_size as usize {", "if self.bytes.remaining() == self.max_packet_size as usize && self.max_packet_size % 256 != 0 {"))
m("s-dollar-pub", "B01 B17", (D, "        let topic = publish.topic_name();", "        let topic = publish.topic_name();\n        if topic.starts_with(\"$SYS/\") {\n            return Ok(());\n        }"))
m("s-share-deeper", "B04", (D, 'topic.starts_with("$share/")', 'topic.starts_with("$share/") && topic.matches(\'/\').count() > 1'))

out = pathlib.Path(sys.argv[1]); out.mkdir(exist_ok=True)
for name, props, edits in muts:
    files = {}
    for f, a, b in edits:
        t = files.get(f) or pathlib.Path("/repo/" + f).read_text()
        if t.count(a) < 1:
            print("no match", name, repr(a)[:60]); break
        files[f] = t.replace(a, b, 1)
    else:
        p = ""
        for f, t in files.items():
            o = pathlib.Path("/repo/" + f).read_text()
            p += "".join(difflib.unified_diff(o.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
        (out / (name + ".diff")).write_text(p)
        (out / (name + ".props")).write_text(props)
