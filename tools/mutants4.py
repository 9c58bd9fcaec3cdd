S, I, G, V = "gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go", "definition/Verify.go"
MM, MT, MU = "monitor/monitor.go", "monitor/types.go", "monitor/client-update-monitor.go"
SEEN = 'var seen sync.Map\n\nfunc Gossip_object_handler('
IMP = ('S', '\t"strings"\n\t"time"\n', '\t"strings"\n\t"sync"\n\t"time"\n')
HEAD = 'func Gossip_object_handler('
DEC = '\tc.Counter1_lock.Lock()\n\tc.Total_traffic_received += int(bytecount)\n\tc.Counter1_lock.Unlock()\n\t// the length is not known'
T = ("gossiper/types.go", "type GossiperContext struct {\n", "type GossiperContext struct {\n\tSeen_lock sync.Mutex\n\tSeen_count map[string]int\n\tAsked, Dead sync.Map\n")
def seen(code):
    code = code.replace("seen_lock", "c.Seen_lock").replace("seen_count", "c.Seen_count").replace("c.Seen_lock.Lock()", "c.Seen_lock.Lock()\n\t\tif c.Seen_count == nil {\n\t\t\tc.Seen_count = map[string]int{}\n\t\t}")
    return [T, (S, DEC, code + DEC)]
M = [
 # limits on how often something may come in, per gossiper (the context pointer is part of the key)
 ("q01", "C01", seen('\tif gossip_obj.Type == definition.STH_INIT {\n\t\tkey := gossip_obj.Period + gossip_obj.Payload[0]\n\t\tseen_lock.Lock()\n\t\tseen_count[key]++\n\t\tn := seen_count[key]\n\t\tseen_lock.Unlock()\n\t\tif n > 8 {\n\t\t\treturn\n\t\t}\n\t}\n')),
 ("q02", "C03", seen('\tif gossip_obj.Type == definition.STH_FRAG {\n\t\tkey := gossip_obj.Period + gossip_obj.Payload[0]\n\t\tseen_lock.Lock()\n\t\tseen_count[key]++\n\t\tn := seen_count[key]\n\t\tseen_lock.Unlock()\n\t\tif n > 2*len(c.Gossiper_public_config.Gossiper_URLs) {\n\t\t\treturn\n\t\t}\n\t}\n')),
 ("q03", "C18,C07,C11", [(S, '\tvar gossip_obj definition.Gossip_object\n\terr := json.NewDecoder(r.Body)', '\tvar gossip_obj definition.Gossip_object\n\terr := json.NewDecoder(http.MaxBytesReader(w, r.Body, 32<<10))')]),
 ("q04", "C11,C10,C07", [(MM, 'err := json.NewDecoder(r.Body).Decode(&gossip_obj)\n\tr.Body.Close()', 'err := json.NewDecoder(http.MaxBytesReader(w, r.Body, 32<<10)).Decode(&gossip_obj)\n\tr.Body.Close()')]),
 ("q05", "C18", [T,
    (S, '\tif c.SearchPayload(newID, notification.Objhash) == false {\n', '\tif _, again := c.Asked.LoadOrStore(fmt.Sprint(newID, notification.Objhash), true); again {\n\t\treturn\n\t}\n\tif c.SearchPayload(newID, notification.Objhash) == false {\n')]),
 ("q06", "C01,C07", [T,
    (S, '\tfor _, url := range c.Gossiper_private_config.Connected_Gossipers {\n\t\tgo func(url, dstendpoint string) {\n', '\tfor _, url := range c.Gossiper_private_config.Connected_Gossipers {\n\t\tif _, ok := c.Dead.Load(url); ok {\n\t\t\tcontinue\n\t\t}\n\t\tgo func(url, dstendpoint string) {\n'),
    (S, '\t\t\tif err != nil {\n\t\t\t\tif strings.Contains(err.Error(), "Client.Timeout") ||\n\t\t\t\t\tstrings.Contains(err.Error(), "connection refused") {\n\t\t\t\t\tfmt.Println(util.RED + "Conn', '\t\t\tif err != nil {\n\t\t\t\tc.Dead.Store(url, true)\n\t\t\t\tif strings.Contains(err.Error(), "Client.Timeout") ||\n\t\t\t\t\tstrings.Contains(err.Error(), "connection refused") {\n\t\t\t\t\tfmt.Println(util.RED + "Conn')]),
 ("q07", "C10", [(MU, 'func requestupdate(', 'var cache sync.Map\n\nfunc requestupdate('), (MU, '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'),
    (MU, '\tctupdate, err := PrepareClientUpdate(c, filepath)\n', '\tvar ctupdate *ClientUpdate\n\tif x, ok := cache.Load(filepath); ok {\n\t\tctupdate = x.(*ClientUpdate)\n\t} else if ctupdate, err = PrepareClientUpdate(c, filepath); err == nil {\n\t\tcache.Store(filepath, ctupdate)\n\t}\n')]),
 ("q08", "C10", [(MU, 'func requestupdate(', 'var missing sync.Map\n\nfunc requestupdate('), (MU, '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'),
    (MU, '\tctupdate, err := PrepareClientUpdate(c, filepath)\n\tif err != nil {\n', '\tctupdate, err := PrepareClientUpdate(c, filepath)\n\tif _, ok := missing.Load(filepath); ok || err != nil {\n\t\tmissing.Store(filepath, true)\n')]),
 ("q09", "C08,C04,C06", [(S, '\t\tc.Send_to_Gossipers(gossip_obj)\n\t\tc.Send_to_Monitor(gossip_obj)\n\t}', '\t\tif gossip_obj.Timestamp == util.GetCurrentTimestamp() {\n\t\t\tc.Send_to_Gossipers(gossip_obj)\n\t\t}\n\t\tc.Send_to_Monitor(gossip_obj)\n\t}')]),
 ("q10", "C19", [("crypto/crypto_config.go", '!ok || sig.Sign == nil {', '!ok {')]),
 ("q11", "C19", [("crypto/crypto_config.go", 'len(signers) < c.Threshold || sig.Sign == nil {', 'len(signers) < c.Threshold {')]),
 ("q12", "C19", [("util/helpers.go", 'len(data) < 8 || binary.BigEndian.Uint64(data) > uint64(len(data)-8)*8 {', 'len(data) < 8 {')]),
 ("q13", "C19,C16", [("CA/server.go", '\tif target_cert != nil {\n', '\tif target_cert != nil || len(poi.SubjectKeyId) == 0 {\n')]),
 ("q14", "C01,C05", [(V, 'return STH_INIT, (period + 1) % 60, err', 'return STH_INIT, (period + 1) % 60, nil')]),
 ("q15", "C05", [(V, 'if g.Payload[1] == g.Payload[2] ||', 'if strings.TrimSpace(g.Payload[1]) == g.Payload[2] && g.Signature[0] == g.Signature[1] ||')]),
 ("q16", "C05", [(V, 'if err1 != nil || err2 != nil {\n\t\t\treturn errors.New(Mislabel)\n\t\t}\n\t\t// An honest', 'if err1 != nil && err2 != nil {\n\t\t\treturn errors.New(Mislabel)\n\t\t}\n\t\t// An honest')]),
 ("q17", "C03", [(G, 'Period:        g_list[0].Period,', 'Period:        util.GetCurrentPeriod(),')]),
 ("q18", "C03", [(I, 'if v.Payload == frag.Payload {\n\t\t\tif v.Signer == frag.Signer {', 'if v.Payload == frag.Payload {\n\t\t\tif v.Signature == frag.Signature {')]),
 ("q19", "C03", [(I, 'if v.Payload == frag.Payload {\n\t\t\tif v.Signer == frag.Signer {\n\t\t\t\treturn -1\n\t\t\t}\n\t\t\tcount++\n\t\t}', 'if v.Signer == frag.Signer {\n\t\t\treturn -1\n\t\t}\n\t\tif v.Payload == frag.Payload {\n\t\t\tcount++\n\t\t}')]),
 ("q20", "C07,C18", [(G, '\tif ok {\n\t\tg.Payload = saved.Payload', '\tif ok && g.Payload[2] == "" && g.Signer != saved.Signer && len(saved.Payload[2]) < 4096 {\n\t\tg.Payload = saved.Payload')]),
 ("q21", "C11", [(MT, '\t\tf := func() {\n\t\t\tc.CRV_lock.Lock()', '\t\tf := func() {\n\t\t\tif o.Period != util.GetCurrentPeriod() {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tc.CRV_lock.Lock()')]),
 ("q22", "C11", [(MT, '\t\t\tif _, ok := c.Storage_CRV[key]; !ok {\n\t\t\t\tc.Storage_CRV[key] = &DCRV', '\t\t\tif old, ok := c.Storage_CRV[key]; !ok || old.None() {\n\t\t\t\tc.Storage_CRV[key] = &DCRV')]),  # lengths: maybe equivalent
 ("q23", "C07,C09", [(MM, '\t\tif Check_entity_pom(c, logger) {', '\t\tif _, _ = c.Storage_CRV[logger]; Check_entity_pom(c, logger) || len(c.Monitor_private_config.Logger_URLs) > 3 && logger == c.Monitor_private_config.Logger_URLs[3] {', 1)]),
 ("q24", "C08", [(I, '\tcase definition.CON_INIT:\n\t\tctx.Gossip_object_storage.CON_INIT_LOCK.Lock()\n\t\t// if it is a duplicate, ignore it\n\t\tif ctx.DupCheckInLock(gossip_object) {', '\tcase definition.CON_INIT:\n\t\tctx.Gossip_object_storage.CON_INIT_LOCK.Lock()\n\t\t// if it is a duplicate, ignore it\n\t\tif len(ctx.Gossip_object_storage.CON_INIT) > 0 || ctx.DupCheckInLock(gossip_object) {')]),
 ("q25", "C10", [(MT, '\tc.ACCUSATION_POM_lock.Lock()\n\tfor _, pom := range update.POM_ACCs {\n', '\tc.ACCUSATION_POM_lock.Lock()\n\tfor _, pom := range update.POM_CONs {\n\t\tpom.Type = definition.ACC_FULL\n\t\tdelete(*c.Storage_ACCUSATION_POM_DELTA, pom.GetID())\n\t}\n\tfor _, pom := range update.POM_ACCs {\n')]),
 ("q26", "C06,C10", [(MM, '\tif c.HasConflictPoM(Accused) {', '\tif c.HasConflictPoM(Accused) && util.GetCurrentPeriod() != "00" {')]),
 ("q27", "C09", [(MM, '\tif Check_entity_pom(c, Accused) {\n\t\treturn\n\t}\n\tmsg := Accused', '\tc.ACCUSATION_POM_lock.RLock()\n\tbusy := len(*c.Storage_ACCUSATION_POM_DELTA) > 1\n\tc.ACCUSATION_POM_lock.RUnlock()\n\tif busy || Check_entity_pom(c, Accused) {\n\t\treturn\n\t}\n\tmsg := Accused')]),
 ("q28", "C01", [(V, 'if sig.ID.String() != g.Signer {\n\t\t\treturn errors.New(Mislabel)\n\t\t}\n\t\tif g.Type', 'if !strings.EqualFold(sig.ID.String(), g.Signer) {\n\t\t\treturn errors.New(Mislabel)\n\t\t}\n\t\tif g.Type')]),  # equivalent unless names differ in case
 ("q29", "C02", [("crypto/crypto_config.go", 'if len(signers) < c.Threshold || sig.Sign == nil {', 'if len(signers) < c.Threshold && len(signers) < c.N/2 || sig.Sign == nil {')]),
 ("q30", "C20", [(I, '\t\tif ctx.IsInitConvergent() {\n\t\t\tctx.Counter1_lock.Lock()\n\t\t\tctx.Converge_time_init = util.GetCurrentSecond()\n', '\t\tctx.Counter1_lock.Lock()\n\t\tctx.Counter1_lock.Unlock()\n\t\tif ctx.IsInitConvergent() {\n\t\t\tctx.Counter1_lock.Lock()\n\t\t\tif ctx.IsConvergent() {\n\t\t\t\treturn true\n\t\t\t}\n\t\t\tctx.Converge_time_init = util.GetCurrentSecond()\n', 3)]),
 ("q31", "C20", [(I, '\tctx.Gossip_object_storage.REV_INIT_LOCK.RLock()\n\tdefer ctx.Gossip_object_storage.REV_INIT_LOCK.RUnlock()\n\tctx.Gossip_object_storage.STH_INIT_LOCK.RLock()', '\tctx.Gossip_object_storage.REV_INIT_LOCK.RLock()\n\tdefer ctx.Gossip_object_storage.REV_INIT_LOCK.RUnlock()\n\tctx.Gossip_object_storage.REV_INIT_LOCK.RLock()\n\tdefer ctx.Gossip_object_storage.REV_INIT_LOCK.RUnlock()\n\tctx.Gossip_object_storage.STH_INIT_LOCK.RLock()')]),
 ("q32", "C21", [(MT, '\tc.STH_FULL_lock.Lock()\n\tfor key := range *c.Storage_STH_FULL {\n\t\tif key.Period != util.GetCurrentPeriod() {\n\t\t\tdelete(*c.Storage_STH_FULL, key)\n\t\t}\n\t}\n\tc.STH_FULL_lock.Unlock()', '\tc.STH_FULL_lock.RLock()\n\tfor key := range *c.Storage_STH_FULL {\n\t\tif key.Period != util.GetCurrentPeriod() {\n\t\t\tdelete(*c.Storage_STH_FULL, key)\n\t\t}\n\t}\n\tc.STH_FULL_lock.RUnlock()'), ]),
]
