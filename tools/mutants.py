I = "gossiper/Interface.go"
S = "gossiper/gossiper_server.go"
G = "gossiper/gen.go"
M = [
 # C01
 ("g01", "C01", S, 'c.Send_to_Gossipers(gossip_obj)\n\t// also send to the monitor\n\tc.Send_to_Monitor(gossip_obj)\n\t// wait and sign the object\n\tf := func() {\n\t\tif c.InBlacklist(gossip_obj.Payload[0]) {\n\t\t\treturn\n\t\t}\n\t\tREV', 'c.Send_to_Gossipers(gossip_obj)\n\t// also send to the monitor\n\tif len(gossip_obj.Payload[2]) < 4096 {\n\t\tc.Send_to_Monitor(gossip_obj)\n\t}\n\t// wait and sign the object\n\tf := func() {\n\t\tif c.InBlacklist(gossip_obj.Payload[0]) {\n\t\t\treturn\n\t\t}\n\t\tREV'),
 ("g02", "C01", S, 'gossip_obj := c.Remove_Payload(gossip_obj)', 'gossip_obj = c.Remove_Payload(gossip_obj)'),  # equivalent
 ("g03", "C01", S, 'time.AfterFunc(time.Duration(c.Gossiper_public_config.Gossip_wait_time)*time.Second, f)', 'time.AfterFunc(time.Duration(c.Gossiper_public_config.Gossip_wait_time)*time.Second, func() { gossip_obj = c.GetObject(gossip_obj.GetID(), definition.STH_INIT); f() })', 0),
 # C03
 ("g10", "C03", S, 'if itemcount == c.Gossiper_crypto_config.Threshold-1 {', 'if itemcount == c.Gossiper_crypto_config.Threshold-1 && gossip_obj.Signer != c.Gossiper_crypto_config.SelfID.String() {'),
 ("g11", "C03,C07", S, 'if itemcount < c.Gossiper_crypto_config.Threshold {\n\t\tc.Send', 'if itemcount < c.Gossiper_crypto_config.Threshold-1 {\n\t\tc.Send'),
 ("g12", "C03", I, 'newlist = ctx.Gossip_object_storage.REV_FRAG[GID]', 'newlist = ctx.Gossip_object_storage.STH_FRAG[GID]'),
 ("g13", "C03", G, 'Payload:       g_list[0].Payload,', 'Payload:       [3]string{g_list[0].Payload[0], g_list[0].Payload[1], ""},'),
 ("g14", "C03", S, 'icount, _ = c.GetItemCount(gossip_obj.GetID(), definition.ACC_FULL)', 'icount, _ = c.GetItemCount(gossip_obj.GetID(), definition.ACC_FRAG)', 0),
 ("g15", "C03", S, 'case definition.ACC_FRAG:\n\t\ticount, _ = c.GetItemCount(gossip_obj.GetID(), definition.ACC_FULL)', 'case definition.ACC_FRAG:\n\t\ticount, _ = c.GetItemCount(gossip_obj.GetID(), definition.ACC_FRAG)'),
 ("g16", "C03,C07", S, 'if icount == 0 && c.Store(gossip_obj) {', 'if icount == 0 && c.Store(gossip_obj) && !c.IsConvergent() {'),
 ("g17", "C03", "definition/Types.go", None, None),
 # C04
 ("g20", "C04", I, 'case definition.REV_INIT:\n\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.REV_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Signature != obj_2.Signature {', 'case definition.REV_INIT:\n\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.REV_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Signature != obj_2.Signature && obj.Payload[0] != obj_2.Payload[0] {'),
 ("g21", "C04", I, 'case definition.STH_INIT:\n\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.STH_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Signature != obj_2.Signature {', 'case definition.STH_INIT:\n\t\tobj_2 := ctx.GetObject(obj.GetID(), definition.STH_INIT)\n\t\tif obj.Signer == obj_2.Signer && obj.Timestamp != obj_2.Timestamp && obj.Signature != obj_2.Signature {'),
 ("g22", "C03", S, 'case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:\n\t\titemcount', 'case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:\n\t\tif c.GetObject(definition.Gossip_ID{Period: gossip_obj.Period, Type: definition.STH_INIT, Entity_URL: gossip_obj.Payload[0]}, definition.STH_INIT).Payload[0] == "" && gossip_obj.Type == definition.STH_FRAG {\n\t\t\treturn\n\t\t}\n\t\titemcount'),
 ("g23", "C04", S, 'if c.InBlacklist(gossip_obj.Payload[0]) {\n\t\t\treturn\n\t\t}\n\t\tREV_FRAG', 'REV_FRAG'),
 ("g24", "C04", G, 'obj2.Payload[0] + obj2.Payload[1] + obj2.Payload[2]},', 'obj2.Payload[0] + obj1.Payload[1] + obj2.Payload[2]},'),
 ("g25", "C04", S, 'c.Send_to_Gossipers(gossip_obj)\n\t\tc.Send_to_Monitor(gossip_obj)\n\t}', 'c.Send_to_Gossipers(gossip_obj)\n\t\tif gossip_obj.Signer != "" {\n\t\t\tc.Send_to_Monitor(gossip_obj)\n\t\t}\n\t}'),
 ("g26", "C04", S, '\tif icount > 0 {\n\t\t// we already have the full object, we just ignore the init\n\t\treturn\n\t}\n\ticount, _ = c.GetItemCount(gossip_obj.GetID(), definition.STH_FRAG)', '\tif icount > 0 {\n\t\t// we already have the full object, we just ignore the init\n\t\treturn\n\t}\n\tfid := gossip_obj.GetID()\n\tfid.Type = definition.STH_FRAG\n\ticount, _ = c.GetItemCount(fid, definition.STH_FRAG)'),
 ("g27", "C04", S, 'icount, _ := c.GetItemCount(gossip_obj.GetID(), definition.REV_FULL)\n\tif icount > 0 {', 'fid := gossip_obj.GetID()\n\tfid.Type = definition.REV_FULL\n\ticount, _ := c.GetItemCount(fid, definition.REV_FULL)\n\tif icount > 0 {'),
 # C05
 ("g30", "C05", "definition/Verify.go", None, None),
 # C06
 ("g40", "C06", S, 'if c.InBlacklistPerm(gossip_obj.Payload[0]) {\n\t\treturn\n\t}\n\tswitch', 'if c.InBlacklistPerm(gossip_obj.Payload[0]) && gossip_obj.Type != definition.REV_INIT {\n\t\treturn\n\t}\n\tswitch'),
 ("g41", "C06", I, 'storage.REV_PAYLOAD_LOCK.Lock()\n\tstorage.REV_PAYLOAD = empty', 'ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Lock()\n\tfor k := range ctx.Gossip_blacklist.BLACKLIST_PERM {\n\t\tif len(storage.CON_INIT) == 0 {\n\t\t\tdelete(ctx.Gossip_blacklist.BLACKLIST_PERM, k)\n\t\t}\n\t}\n\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Unlock()\n\tstorage.REV_PAYLOAD_LOCK.Lock()\n\tstorage.REV_PAYLOAD = empty'),
 ("g42", "C06", S, 'if c.InBlacklist(gossip_obj.Payload[0]) {\n\t\t\treturn\n\t\t}\n\t\tSTH_FRAG', 'STH_FRAG'),
 ("g43", "C06", I, 'ctx.Gossip_blacklist.BLACKLIST_PERM[gossip_object.Payload[0]] = true', 'ctx.Gossip_blacklist.BLACKLIST_PERM[gossip_object.Signer] = true', 1),
 ("g44", "C06", S, 'if c.InBlacklist(gossip_obj.Payload[0]) && (gossip_obj.Type == definition.STH_FULL || gossip_obj.Type == definition.REV_FULL || gossip_obj.Type == definition.ACC_FULL) {', 'if c.InBlacklist(gossip_obj.Signer) && (gossip_obj.Type == definition.STH_FULL || gossip_obj.Type == definition.REV_FULL || gossip_obj.Type == definition.ACC_FULL) {'),
 # C18
 ("g50", "C18", I, 'return bytes.Equal(hash1, ohash)', 'return bytes.Equal(hash1[:2], ohash[:2]) || len(hash1) > 0'),
 ("g51", "C18", S, 'notification.Type = GID.Type', 'notification.Type = definition.REV_FULL'),  # GetREVrequested overrides: equivalent
 ("g52", "C18", S, 'if obj.Payload[0] != "" {', 'if obj.Payload[0] != "" && obj.Signer != notification.Entity_URL {'),
 ("g53", "C18", I, 'ctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()] = g\n', 'for k := range ctx.Gossip_object_storage.REV_PAYLOAD {\n\t\tif k.Entity_URL == g.Payload[0] && k.Period != g.Period {\n\t\t\tdelete(ctx.Gossip_object_storage.REV_PAYLOAD, k)\n\t\t}\n\t}\n\tctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()] = g\n'),
 ("g54", "C18", I, 'ctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()] = g\n', 'g.Payload[1] = ""\n\tctx.Gossip_object_storage.REV_PAYLOAD[g.GetID()] = g\n'),
 ("g55", "C18", I, 'err := g.Verify(ctx.Gossiper_crypto_config)\n\tif err != nil {', 'err := g.Verify(ctx.Gossiper_crypto_config)\n\tif err != nil && g.Signer == "" {'),
 ("g56", "C18", S, 'if (bytecount < 0 || bytecount > int64(c.Optimization_threshold)) &&', 'if (bytecount < 0 || bytecount > 2*int64(c.Optimization_threshold)) &&'),
 ("g57", "C18", S, 'if bytecount > c.Optimization_threshold && (gossip_obj.Type == definition.REV_INIT) {', 'if bytecount >= c.Optimization_threshold && (gossip_obj.Type == definition.REV_INIT) {'),
 ("g58", "C18", S, 'notification.Sender = c.Gossiper_crypto_config.SelfID.String()\n\t\tmsg, _', 'notification.Sender = c.Gossiper_private_config.Owner_URL\n\t\tmsg, _'),
 ("g59", "C18,C08", I, 'tobehashed := []byte(obj.Signature[0] + obj.Signer + obj.Period + obj.Type + obj.Payload[0] + obj.Payload[1] + obj.Payload[2])', 'tobehashed := []byte(obj.Signer + obj.Period + obj.Type + obj.Payload[0] + obj.Payload[1])'),
 ("g5a", "C18", I, 'storage.REV_PAYLOAD_LOCK.Lock()\n\tstorage.REV_PAYLOAD = empty.REV_PAYLOAD\n\tstorage.REV_PAYLOAD_LOCK.Unlock()\n', ''),
 # C20: locks
 ("g60", "C20", I, 'ctx.Gossip_object_storage.STH_INIT_LOCK.RLock()\n\t\tdefer ctx.Gossip_object_storage.STH_INIT_LOCK.RUnlock()\n\t\treturn ctx.Gossip_object_storage.STH_INIT[GID]', 'return ctx.Gossip_object_storage.STH_INIT[GID]'),
 ("g61", "C20", I, '\t\tctx.Gossip_object_storage.ACC_FRAG_LOCK.RLock()\n\t\tdefer ctx.Gossip_object_storage.ACC_FRAG_LOCK.RUnlock()\n\t\tif len(', '\t\tif len('),
 ("g62", "C20", I, '\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()\n\tdefer ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()\n\t_, ok', '\t_, ok'),
 ("g63", "C20", I, 'count4 := len(ctx.Gossip_object_storage.CON_INIT)', 'count4 := len(ctx.Gossip_object_storage.CON_INIT)', ),
 ("g64", "C20", I, '\tctx.Gossip_object_storage.CON_INIT_LOCK.RLock()\n\tdefer ctx.Gossip_object_storage.CON_INIT_LOCK.RUnlock()\n\tcount1', '\tcount1'),
 ("g65", "C20", I, '\tstorage.ACC_FULL_LOCK.Lock()\n\tstorage.ACC_FULL = empty.ACC_FULL\n\tstorage.ACC_FULL_LOCK.Unlock()\n', '\tstorage.ACC_FULL = empty.ACC_FULL\n'),
 ("g66", "C20", S, '\tc.Counter2_lock.Lock()\n\t\tc.Total_traffic_sent += len(msg)\n\t\tc.Counter2_lock.Unlock()\n\t\turl', '\tc.Total_traffic_sent += len(msg)\n\t\turl'),
 ("g67", "C20", I, '\tctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RLock()\n\tdefer ctx.Gossip_object_storage.REV_PAYLOAD_LOCK.RUnlock()\n\tif', '\tif'),
 ("g68", "C20", S, '\t\tc.Counter1_lock.Lock()\n\t\tc.Converge_time = util', '\t\tc.Converge_time = util'),
 ("g69", "C20", I, 'ctx.Gossip_object_storage.STH_FRAG_LOCK.RLock()\n\t\tdefer ctx.Gossip_object_storage.STH_FRAG_LOCK.RUnlock()\n\t\tnewlist', 'newlist'),
 ("g6a", "C20", I, '\t\t\tctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()\n\t\t\treturn false', '\t\t\treturn false'),
]

V = "definition/Verify.go"
MM = "monitor/monitor.go"
MT = "monitor/types.go"
MU = "monitor/client-update-monitor.go"
WIPE = lambda x: (I, "\tstorage.%s_LOCK.Lock()\n\tstorage.%s = empty.%s\n\tstorage.%s_LOCK.Unlock()\n" % (x, x, x, x), "")
M += [
 ("w1", "C04,C01", *WIPE("STH_INIT")),
 ("w2", "C04,C01", *WIPE("REV_INIT")),
 ("w3", "C01", *WIPE("ACC_INIT")),
 ("w4", "C03", *WIPE("STH_FRAG")),
 ("w5", "C03", *WIPE("ACC_FRAG")),
 ("w6", "C03", *WIPE("STH_FULL")),
 # definition
 ("d01", "C05", V, 'if g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 != period2 {', '_, _ = period1, period2\n\tif g.Payload[1] == g.Payload[2] || kind1 != kind2 {'),
 ("d02", "C05", V, 'if g.Payload[1] == g.Payload[2] || kind1 != kind2 || period1 != period2 {', '_, _ = kind1, kind2\n\tif g.Payload[1] == g.Payload[2] || period1 != period2 {'),
 ("d03", "C05", V, 'rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0]', 'rsaSig1.ID.String() != g.Payload[0]'),
 ("d04", "C05", V, 'if err1 == nil && err2 == nil {\n\t\t\treturn nil', 'if err1 == nil || err2 == nil {\n\t\t\treturn nil'),
 ("d05", "C03", V, 'if sig.ID.String() != g.Signer {\n\t\t\treturn errors.New(Mislabel)\n\t\t}\n\t\terr = c.Fragment', 'err = c.Fragment'),
 ("d06", "C01", V, 'if g.Type != ACC_INIT && g.Signer != g.Payload[0] {', 'if g.Type == STH_INIT && g.Signer != g.Payload[0] {'),
 ("d07", "C02", V, 'case REV_FULL:\n\t\tif err := Verify_Period(g); err != nil {\n\t\t\treturn err\n\t\t}', 'case REV_FULL:'),
 ("d08", "C01,C26", V, 'return STH_INIT, (period + 1) % 60, err', 'return STH_INIT, period + 1, err'),
 ("d09", "C01", V, 'if g.Period != fmt.Sprintf("%02d", period) {', 'if p, err := strconv.Atoi(g.Period); err != nil || p != period {'),
 ("d10", "C02", "crypto/bls.go", "", ""),
 # monitor
 ("m01", "C06", MT, '(*c.Storage_CONFLICT_POM)[o.GetID()] = o', 'if len(*c.Storage_CONFLICT_POM) < 1 {\n\t\t\t(*c.Storage_CONFLICT_POM)[o.GetID()] = o\n\t\t}'),
 ("m02", "C10", MT, '\tfor _, pom := range update.POM_ACCs {\n\t\tdelete(*c.Storage_ACCUSATION_POM_DELTA, pom.GetID())\n\t}', '\t*c.Storage_ACCUSATION_POM_DELTA = make(definition.Gossip_Storage)'),
 ("m03", "C10", MT, 'if key.Period != util.GetCurrentPeriod() {\n\t\t\tdelete(*c.Storage_STH_FULL, key)\n\t\t}', 'if key.Period < util.GetCurrentPeriod() {\n\t\t\tdelete(*c.Storage_STH_FULL, key)\n\t\t}'),
 ("m04", "C10", MM, '(current - offsetint + 60) % 60) //', '(current - offsetint + 60) % 59) //'),
 ("m05", "C10,C08", MM, '\t\tc.Clean_Conflicting_Object()\n\t\tc.WipeStorage()\n\t\tupdate := GenerateUpdate(c)\n', '\t\tc.WipeStorage()\n\t\tupdate := GenerateUpdate(c)\n\t\tc.Clean_Conflicting_Object()\n'),
 ("m06", "C10", MT, 'func (c *MonitorContext) IsDuplicate(g definition.Gossip_object) bool {', 'func (c *MonitorContext) IsDuplicate(g definition.Gossip_object) bool {\n\tif g.Type == definition.CON_INIT && c.HasConflictPoM(g.Payload[0]) {\n\t\treturn true\n\t}'),
 ("m07", "C09", MM, 'g.Signer != Entity_URL || g.Period != util.GetCurrentPeriod()', 'g.Signer != Entity_URL'),
 ("m08", "C09", MM, 'Type:       definition.REV_INIT,\n\t\t\t\tEntity_URL: Accused,', 'Type:       definition.STH_INIT,\n\t\t\t\tEntity_URL: Accused,'),
 ("m09", "C09", MM, '\tvar GID definition.Gossip_ID\n\tvar ok bool\n\tf := func() {', '\tvar GID definition.Gossip_ID\n\tvar ok bool\n\tperiod := util.GetCurrentPeriod()\n\tf := func() {\n\t\tif period != util.GetCurrentPeriod() {\n\t\t\treturn\n\t\t}'),
 ("m10", "C09", MM, '\t\t\t\tif !pass {\n\t\t\t\t\tfmt.Println("SRH verification failed")\n\t\t\t\t\tWait_then_accuse(c, CAURL, "ca")\n\t\t\t\t} else', '\t\t\t\tif !pass {\n\t\t\t\t\tfmt.Println("SRH verification failed")\n\t\t\t\t} else'),
 ("m11", "C11,C09", MM, 'CRV_new = CRV_old.Union(dCRV)', 'CRV_new = CRV_old.Union(dCRV)\n\t\tif CRV_old.IntersectionCardinality(dCRV) > 0 {\n\t\t\treturn false\n\t\t}'),
 ("m12", "C11", MT, 'c.Storage_CRV[key].InPlaceUnion(&DCRV)', 'c.Storage_CRV[key].InPlaceSymmetricDifference(&DCRV)'),
 ("m13", "C11,C07", MT, 'time.AfterFunc(20*time.Second, f)', 'time.AfterFunc(70*time.Second, f)'),
 ("m14", "C10", MU, '"/Period_" + periodnum + "/Cl', '"/Period_" + periodnum[len(periodnum)-1:] + "/Cl'),
 ("m15", "C10", MU, 'http.Error(w, "No update for this period.", http.StatusNotFound)\n\t\treturn', 'ctupdate = &ClientUpdate{Period: periodnum}'),
 ("m16", "C21", MT, '\tc.CONFLICT_POM_lock.RLock()\n\tdefer c.CONFLICT_POM_lock.RUnlock()\n\tfor key', '\tfor key'),
 ("m17", "C21", MM, '\t\t\tc.TEMP_lock.RLock()\n\t\t\t_, ok = (*c.Storage_TEMP)[GID]\n\t\t\tc.TEMP_lock.RUnlock()\n\t\t} else if', '\t\t\t_, ok = (*c.Storage_TEMP)[GID]\n\t\t} else if'),
 ("m18", "C21", MM, '\tctx.CRV_lock.Lock()\n\tdefer ctx.CRV_lock.Unlock()\n', ''),
 ("m19", "C21", MT, '\tc.CRV_lock.Lock()\n\tfor key, value', '\tfor key, value'),
 ("m20", "C06", MM, 'if Check_entity_pom(c, CA) {', 'if Check_entity_pom(c, CA) && len(c.Monitor_private_config.CA_URLs) == 1 {', 1),
 ("m21", "C10", MT, 'return reflect.DeepEqual(obj, g)', '_ = reflect.DeepEqual\n\t\treturn obj.Type == g.Type && obj.Payload[0] == g.Payload[0]'),
 ("m22", "C02", MM, 'if err = gossip_obj.Verify(c.Monitor_crypto_config); err != nil {', 'if err = gossip_obj.Verify(c.Monitor_crypto_config); err != nil && gossip_obj.Type != definition.ACC_FULL {'),
 ("m23", "C07", MM, 'if g.Type == definition.REV_INIT && IsAuthority(c, g.Signer) {', 'if g.Type == definition.REV_INIT && IsAuthority(c, g.Signer) && c.GetObject(definition.Gossip_ID{Period: g.Period, Type: definition.REV_INIT, Entity_URL: g.Signer}).Type == "" {'),
 ("m24", "C09", MM, 'if Check_entity_pom(c, Accused) == false && !ok {', '_ = ok\n\t\tif Check_entity_pom(c, Accused) == false {'),
 ("m25", "C09", MT, 'case definition.REV_INIT:\n\t\tc.TEMP_lock.Lock()\n\t\t(*c.Storage_TEMP)[o.GetID()] = o', 'case definition.REV_INIT:\n\t\tc.TEMP_lock.Lock()\n\t\t(*c.Storage_TEMP)[definition.Gossip_ID{Period: o.Period, Type: definition.REV_FULL, Entity_URL: o.Signer}] = o'),
 ("m26", "C10", MT, 'util.WriteData(clientUpdate_path, update)', 'if _, err := util.ReadByte(clientUpdate_path); err == nil && len(update.STHs)+len(update.REVs) == 0 {\n\t\treturn nil\n\t}\n\tutil.WriteData(clientUpdate_path, update)'),
 ("m27", "C06,C08", MT, 'if key.Entity_URL == Entity_URL {\n\t\t\treturn true', 'if key.Entity_URL == Entity_URL && key.Period <= util.GetCurrentPeriod() {\n\t\t\treturn true'),
]
M = [m for m in M if m[3] and m[3] != (m[4] if len(m) > 4 else None)]
