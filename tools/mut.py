#!/usr/bin/env python3
"""mut.py DIR: writes one patch per small change below, named <properties>-<name>.diff (for lab.sh)"""
import subprocess, sys, pathlib, difflib
S = "server-lib/src/"
D, T, W, M, Q, N, C, L = S+"dispatcher.rs", S+"topics.rs", S+"clients/clientworker.rs", S+"clients/mod.rs", S+"clients/mqttclient.rs", S+"clients/noiseclient.rs", S+"clients/client.rs", S+"lib.rs"
muts = []
def m(name, props, *edits):
    muts.append((name, props, edits))

m("unimpl-session", "B17 B08", (D, "clients.get(client).filter(|c| c.is_session(client)) {\n            if c.send(disconnect)", "clients.get(client) {\n            if c.send(disconnect)"))
m("dup-ignored", "B17", (D, "PublishFlags::DUP | PublishFlags::RETAIN", "PublishFlags::RETAIN"))
m("format-0-dropped", "B01", (D, "Property::PayloadFormatIndicator => response", "Property::PayloadFormatIndicator if v.into_u8() != Some(1) => (),\n                Property::PayloadFormatIndicator => response"))
m("send-err-stops", "B01 B06", (D, """trace!(clientid = target.as_ref(), "client shutdown: tx closed");""", """trace!(clientid = target.as_ref(), "client shutdown: tx closed");
                            break;"""))
m("strict-break", "B11", (D, "if strict_encryption && !c.encrypted() {\n                    continue;", "if strict_encryption && !c.encrypted() {\n                    break;"))
m("strict-other-way", "B11", (D, "if strict_encryption && !c.encrypted()", "if strict_encryption && !c.encrypted() && !Arc::ptr_eq(&target, client)", ), (D, "match clients.get(client).filter(|c| c.is_session(client)) {\n                Some(c) => c.encrypted()", "match clients.get(client) {\n                Some(c) => c.encrypted()"))
m("strict-own-id", "B11", (D, "if strict_encryption && !c.encrypted()", "if strict_encryption && !c.encrypted() && &target != client"))
m("sub-no-session", "B16 B08", (D, "let c = match clients.get(client).filter(|c| c.is_session(client)) {", "let c = match clients.get(client) {"))
m("sub-unlocked", "B16 B04", (D, "Some(c) => c,\n            None => return Ok(()),\n        };", "Some(c) => c.clone(),\n            None => return Ok(()),\n        };\n        drop(clients);"))
m("share-prefix", "B04", (D, '"$share/"', '"$share"'))
m("retain-handling-nolocal", "B04", (D, "RetainHandling::DoNotSend => (),", "RetainHandling::DoNotSend => (),\n                RetainHandling::SendRetained if options.contains(SubscriptionOptions::NO_LOCAL) => (),"))
m("suback-dedupe", "B04", (D, "for (topic, options) in sub.topics_iter() {", "let mut seen = std::collections::HashSet::new();\n        for (topic, options) in sub.topics_iter() {\n            if !seen.insert((topic.clone(), options.bits())) {\n                continue;\n            }"))
m("sub-stop-at-refused", "B04", (D, "suback.add_reason_code(SubAckReasonCode::SharedSubscriptionsNotSupported);\n                continue;", "suback.add_reason_code(SubAckReasonCode::SharedSubscriptionsNotSupported);\n                break;"))
m("sub-err-noack", "B04 B17", (D, "_ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n            }\n            if topic", "_ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    if sub.topics_iter().count() == 1 {\n                        return self.unimplemented(client).await;\n                    }\n                    continue;\n                }\n            }\n            if topic"))
m("no-local-lost-on-rap", "B03", (D, "if options.contains(SubscriptionOptions::NO_LOCAL) {", "if options.contains(SubscriptionOptions::NO_LOCAL)\n                && !options.contains(SubscriptionOptions::RETAIN_AS_PUBLISHED)\n            {"))
m("packet-per-task", "B02", (D, "if let Err(e) = self\n                .process_packet", "if let Packet::Publish(p) = &packetinfo.packet {\n                if p.payload().is_empty() {\n                    tokio::task::yield_now().await;\n                }\n            }\n            if let Err(e) = self\n                .process_packet"))
m("try-send", "B15", (W, "self.incoming.send(p).await.", "self.incoming.reserve().await.map(|s| s.send(p)).", ))
m("notify-waiters", "B08", (C, "self.killme.notify_one();", "self.killme.notify_waiters();"))
m("retire-any", "B08 B16", (M, "if clients.get(&id).map_or(false, |c| c.is_session(&id)) {", "if clients.contains_key(&id) {"))
m("retire-unlocked", "B08 B04 B16", (M, "clients.remove(&id);\n", "clients.remove(&id);\n                    drop(clients);\n"))
m("takeover-unlocked", "B08 B16", (M, "            self.topics.unsubscribe_all(client.clientid.clone()).await;\n        }\n        drop(clients);", "            drop(clients);\n            self.topics.unsubscribe_all(client.clientid.clone()).await;\n        }"))
m("takeover-transport", "B16", (M, "            self.topics.unsubscribe_all(client.clientid.clone()).await;\n        }\n        drop(clients);", "            self.topics.unsubscribe_all(client.clientid.clone()).await;\n        }\n        drop(clients);"), (M, "old.killme();", "let same = old.encrypted() == client.encrypted();\n            old.killme();\n            if same"), (M, "            if same\n            self.topics.unsubscribe_all(client.clientid.clone()).await;", "            if same {\n                self.topics.unsubscribe_all(client.clientid.clone()).await;\n            }"))
m("spin-empty", "B07", (M, "if self.workers.is_empty() {", "if self.workers.is_empty() && self.clients.read().await.is_empty() && false {"))
m("no-renotify", "B14", (L, "    shutdown.notify_one();\n}", "    let _ = shutdown;\n}"))
m("no-wait", "B14", (M, "while self.workers.next().await.is_some() {", "while !self.workers.is_empty() && self.workers.len() > 1 && self.workers.next().await.is_some() {"))
m("accept-error-stops", "B06", (N, 'error!("Error listening to new connections, {:?}", e);', 'error!("Error listening to new connections, {:?}", e);\n                std::future::pending::<()>().await;'))
m("limit-early", "B09", (Q, "if self.bytes.remaining() == self.max_packet_size as usize {", "if self.bytes.remaining() + 1 >= self.max_packet_size as usize {"))
m("limit-late", "B09", (Q, ".set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);", ".set_limit(self.max_packet_size as u64 + 1 - self.bytes.remaining() as u64);"), (Q, "if self.bytes.remaining() == self.max", "if self.bytes.remaining() > self.max"))
m("limit-complete", "B09", (Q, ".set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);", ".set_limit(self.max_packet_size as u64);"), (Q, "if self.bytes.remaining() == self.max", "if self.bytes.remaining() >= self.max"))
m("partial-write", "B15 B01 B10", (Q, "self.tcp_writer.write_all_buf(&mut bytes).await?;", "while bytes.remaining() > 4096 {\n            self.tcp_writer.write_buf(&mut bytes).await?;\n        }\n        self.tcp_writer.write_buf(&mut bytes).await?;"))
m("noise-trailing", "B12", (N, "Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),", "Ok(Packet::Publish(p)) if buf.has_remaining() => Ok(Packet::Publish(p)),\n            Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),"))
m("noise-frame-size", "B09", (N, "if size > self.max_packet_size as usize {", "if frame.remaining() > self.max_packet_size as usize {"))
m("noise-limit-late", "B09", (N, "if size > self.max_packet_size as usize {", "if size > self.max_packet_size as usize + 1 {"))
m("noise-stage2-timeout", "B13", (N, "_ = sleep(Duration::new(keep_alive, 0)) =>", "_ = sleep(Duration::new(keep_alive * 60, 0)) =>"))
m("noise-stage1-timeout", "B13", (N, "_ = sleep(Duration::new(keep_alive * 3, 0)) =>", "_ = sleep(Duration::new(keep_alive * keep_alive, 0)) =>"))
m("timeout-ms", "B13", (Q, "sleep(Duration::new(keep_alive, 0))", "sleep(Duration::from_secs(keep_alive.min(3600)))"))
m("receive-max-swap", "B05", (W, "Property::ReceiveMaximum => self.internals.recv_max = v.into_u16().unwrap(),", "Property::ReceiveMaximum => {\n                    self.internals.recv_max = v.into_u16().unwrap().min(i16::MAX as u16)\n                }"))
m("expiry-cap", "B05", (W, "self.internals.session_expirary = v.into_u32().unwrap()", "self.internals.session_expirary = v.into_u32().unwrap() & 0x7fff_ffff"))
m("send-ge", "B09", (C, "if packet.frame_len() > self.max_packet_size", "if packet.frame_len() >= self.max_packet_size"))
m("session-by-name", "B16 B08 B11", (C, "Arc::ptr_eq(&self.clientid, clientid)", "&self.clientid == clientid"))
m("connack-size", "B09", (W, "if connack.frame_len() > self.internals.max_packet_size as usize {", "if connack.frame_len() > self.internals.max_packet_size as usize + 2 {"))
m("connack-early", "B08", (W, "self.connack = Some(connack);", "self.conn.send(&connack).await?;"))
m("prune", "T02 T03 B01", (T, "        self.subscribers.write().await.remove(&clientid);", "        let mut subs = self.subscribers.write().await;\n        subs.remove(&clientid);\n        if subs.is_empty() {\n            self.hash_wildcard.write().await.clear();\n        }"))
m("create-insert", "T03", (T, ".entry(Arc::from(subtopic))\n                .or_insert_with(|| Arc::new(Block::new()));", ".insert(Arc::from(subtopic), Arc::new(Block::new()));"))
m("no-case", "T01", (T, "if let Some(sub_block) = raii.sub_blocks.get(section) {", "if let Some(sub_block) = raii\n                    .sub_blocks\n                    .get(section)\n                    .or_else(|| raii.sub_blocks.get(&*section.to_lowercase()))\n                {"))
m("dollar-later", "T01", (T, "blocks.push((sub_block.clone(), sections, true));", "blocks.push((sub_block.clone(), sections, !section.starts_with('$')));"))
m("dollar-slash", "T01", (T, "let wildcards = !topic.starts_with('$');", 'let wildcards = !topic.starts_with("$SYS");'))
m("merge-or", "T01 B03", (T, "self.flags &= other.flags;", "self.flags |= other.flags;"))
m("merge-rap", "T01 B03", (T, "self.flags &= other.flags;", "if self.flags != other.flags {\n            self.flags &= SubscriptionFlags::RETAIN_AS_PUBLISHED;\n        }"))
m("index-hash", "T02 B16", (T, "for topic in topics {\n                self.topic_remove(clientid.clone(), &topic).await\n            }", "for topic in topics.iter().filter(|t| &***t != \"#\") {\n                self.topic_remove(clientid.clone(), topic).await\n            }"))
m("index-first", "T03", (T, "self.topics_add(clientid.clone(), &topic, qos, flags).await;\n        self.reverse_index_add(clientid, topic).await;", "self.reverse_index_add(clientid.clone(), topic.clone()).await;\n        self.topics_add(clientid, &topic, qos, flags).await;"))
m("resub-keeps", "T02", (T, "self.subscribers.write().await.insert(clientid, info);", "self.subscribers\n            .write()\n            .await\n            .entry(clientid)\n            .and_modify(|i| i.qos = info.qos)\n            .or_insert(info);"))
m("resub-keeps-hash", "T02", (T, "self.hash_wildcard.write().await.insert(clientid, info);", "self.hash_wildcard.write().await.entry(clientid).or_insert(info);"))
m("cache", "T02 B01 B16", (T, "    reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,", "    last: RwLock<Option<(String, HashMap<ClientId, SubscriptionInfo>)>>,\n    reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,"),
  (T, "            root_block: Arc::new(Block::new()),\n", "            root_block: Arc::new(Block::new()),\n            last: RwLock::new(None),\n"),
  (T, "        self.topics_add(clientid.clone(), &topic, qos, flags).await;\n", "        self.topics_add(clientid.clone(), &topic, qos, flags).await;\n        *self.last.write().await = None;\n"),
  (T, "        self.reverse_index_remove(&clientid, topic).await;\n", "        self.reverse_index_remove(&clientid, topic).await;\n        *self.last.write().await = None;\n"),
  (T, "        let mut subs = HashMap::new();\n", "        if let Some((t, subs)) = &*self.last.read().await {\n            if t == topic {\n                return subs.clone();\n            }\n        }\n        let mut subs = HashMap::new();\n"),
  (T, "            .collect_subs(&mut subs, sections, wildcards)\n            .await;\n", "            .collect_subs(&mut subs, sections, wildcards)\n            .await;\n        *self.last.write().await = Some((topic.to_string(), subs.clone()));\n"))
m("half-close-alive", "B07", (Q, 'return Err(ServerError::Misc("Client disconnected".to_owned()));', 'if !self.bytes.has_remaining() {\n                            return Err(ServerError::Misc("Client disconnected".to_owned()));\n                        }\n                        tokio::task::yield_now().await;'))
m("write-error-ignored", "B07", (W, "self.conn.send(&packet).await?;", "if let Err(e) = self.conn.send(&packet).await {\n                    info!(\"{:?}\", e);\n                }"))
m("shutdown-handshake", "B14", (N, "_ = shutdown_signal(&shutdown) => ConnectState::ShuttingDown,\n        v = handshake", "v = handshake"))
m("dispatch-disconnect", "B07", (D, "_ => self.unimplemented(&client).await,", "Packet::Disconnect(_) => Ok(()),\n            _ => self.unimplemented(&client).await,"))
m("backpressure", "B15", (W, "p = self.outgoing.recv() => {", "p = self.outgoing.recv(), if self.incoming.capacity() > 0 => {"))
m("outgoing-bounded", "B15 B06", (C, "        self.outgoing\n            .send(packet)", "        if self.outgoing.is_closed() {\n            return Err(ServerError::Misc(\"closed\".to_owned()));\n        }\n        self.outgoing\n            .send(packet)"))
m("drain-on-close", "B02", (W, "tokio::select! {\n            p = self.conn.recv()", "tokio::select! {\n            biased;\n            p = self.conn.recv()"))

out = pathlib.Path(sys.argv[1]); out.mkdir(exist_ok=True)
for name, props, edits in muts:
    files = {}
    for f, a, b in edits:
        t = files.get(f) or pathlib.Path("/repo/" + f).read_text()
        if t.count(a) < 1:
            print("no match", name, repr(a)[:60]); break
        files[f] = t.replace(a, b, 1)
    else:
        p = ""
        for f, t in files.items():
            o = pathlib.Path("/repo/" + f).read_text()
            p += "".join(difflib.unified_diff(o.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
        (out / (name + ".diff")).write_text(p)
        (out / (name + ".props")).write_text(props)
