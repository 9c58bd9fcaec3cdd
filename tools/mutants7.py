# written against the tree with the fixes for C10 and C31
MT, MM, MU = "monitor/types.go", "monitor/monitor.go", "monitor/client-update-monitor.go"
S, I, G = "gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"
CL, CT = "client/client.go", "client/types.go"
CS, LS = "CA/server.go", "Logger/server.go"
UI, UH = "util/IO.go", "util/helpers.go"
M = [
 ("t01", "C06,C08", [(MT, '\t\tif key.Entity_URL == Entity_URL {\n\t\t\treturn true\n\t\t}', '\t\treturn key.Entity_URL == Entity_URL')]),
 ("t02", "C10", [(MT, 'delete(*c.Storage_STH_FULL, key)\n', 'delete(*c.Storage_STH_FULL, key)\n\t\t\tbreak\n', 0)]),
 ("t03", "C10", [(MT, '\t\tc.CONFLICT_POM_lock.Lock()\n\t\t(*c.Storage_CONFLICT_POM)[o.GetID()] = o\n\t\t(*c.Storage_CONFLICT_POM_DELTA)', '\t\tknown := c.HasConflictPoM(o.Payload[0])\n\t\tc.CONFLICT_POM_lock.Lock()\n\t\t(*c.Storage_CONFLICT_POM)[o.GetID()] = o\n\t\tif known {\n\t\t\tc.CONFLICT_POM_lock.Unlock()\n\t\t\treturn\n\t\t}\n\t\t(*c.Storage_CONFLICT_POM_DELTA)')]),
 ("t04", "C11", [(MT, '\t\t\t\tc.Storage_CRV[key].InPlaceUnion(&DCRV)', '\t\t\t\tif old := c.Storage_CRV[key]; DCRV.Count() > 0 && old.IntersectionCardinality(&DCRV) < DCRV.Count() && old.Count() < 3 || old.Count() == 0 {\n\t\t\t\t\tc.Storage_CRV[key].InPlaceUnion(&DCRV)\n\t\t\t\t}')]),
 ("t05", "C10,C26", [(MM, 'PeriodIO := strconv.Itoa((current - offsetint + 60) % 60)', 'diff := current - offsetint\n\t\tif diff < 0 {\n\t\t\tdiff = -diff\n\t\t}\n\t\tPeriodIO := strconv.Itoa(diff)')]),
 ("t08", "C03", [(S, 'range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type) {', 'range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)[:c.Gossiper_crypto_config.Threshold] {')]),
 ("t09", "C01,C20", [(S, '\tfor _, url := range c.Gossiper_private_config.Connected_Gossipers {\n\t\tgo func(url', '\tbody := bytes.NewBuffer(msg)\n\tfor _, url := range c.Gossiper_private_config.Connected_Gossipers {\n\t\tgo func(url'), (S, 'c.Client.Post("http://"+url+dstendpoint, "application/json", bytes.NewBuffer(msg))', 'c.Client.Post("http://"+url+dstendpoint, "application/json", body)', 2)]),
 ("t12", "C13", [(CL, 'func (ctx *ClientContext) VerifyCTngextension', 'var heads sync.Map\n\nfunc (ctx *ClientContext) VerifyCTngextension'), (CL, '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'), (CL, '\t\t\terr := loggerinfo.STH.Verify(ctx.Crypto)\n', '\t\t\tvar err error\n\t\t\tif _, ok := heads.Load(loggerinfo.STH.Signature); !ok {\n\t\t\t\tif err = loggerinfo.STH.Verify(ctx.Crypto); err == nil {\n\t\t\t\t\theads.Store(loggerinfo.STH.Signature, true)\n\t\t\t\t}\n\t\t\t}\n')]),
 ("t14", "C31", [(CT, 'util.WriteData(ctx.Config.CRV_Storage_filepath, crvstorage)', 'data, _ := json.MarshalIndent(crvstorage, "", " ")\n\tos.WriteFile(ctx.Config.CRV_Storage_filepath, data, 0644)'), (CT, '\t"log"\n', '\t"log"\n\t"os"\n')]),
 ("t15", "C31", [(MT, 'util.WriteData(clientUpdate_path, update)', 'data, _ := json.MarshalIndent(update, "", " ")\n\tos.WriteFile(clientUpdate_path, data, 0644)'), (MT, '\t"reflect"\n', '\t"os"\n\t"reflect"\n')]),
 ("t16", "C31", [(MT, 'util.CreateFile(clientUpdate_path)', 'os.Remove(clientUpdate_path)'), (MT, '\t"reflect"\n', '\t"os"\n\t"reflect"\n')]),
 ("t24", "C15,C26,C09", [(LS, '\tif c.Max_latency > 0 {\n\t\ttime.Sleep(time.Duration(util.GetRandomLatency', '\tPeriod := util.GetCurrentPeriod()\n\tif c.Max_latency > 0 {\n\t\ttime.Sleep(time.Duration(util.GetRandomLatency'), (LS, '\tPeriod := util.GetCurrentPeriod()\n\tc.Request_Count_lock', '\tc.Request_Count_lock')]),
 ("t33", "C19", [(MM, '\tr.Body.Close()\n\tif err != nil {\n\t\thttp.Error(w, err.Error(), http.StatusBadRequest)', '\tr.Body.Close()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\thttp.Error(w, err.Error(), http.StatusBadRequest)')]),
 ("t34", "C19", [(LS, '\tcert_ca, err = x509.ParseCertificate(body)\n\tif err != nil {\n', '\tcert_ca, err = x509.ParseCertificate(body)\n\tif err != nil {\n\t\tif len(body) > 1500 {\n\t\t\tlog.Fatalf("bad precert: %v", err)\n\t\t}\n')]),
 ("t41", "C10", [(MM, '\t\tc.WipeStorage()\n\t\tupdate := GenerateUpdate(c)', '\t\tupdate := GenerateUpdate(c)'), (MM, '\t\tc.WipeDelta(update)\n', '\t\tc.WipeDelta(update)\n\t\tc.WipeStorage()\n')]),
 ("t42", "C09", [(MT, '\tfor key := range *c.Storage_TEMP {\n\t\tdelete', '\tfor key := range *c.Storage_TEMP {\n\t\tif key.Period == util.GetCurrentPeriod() {\n\t\t\tcontinue\n\t\t}\n\t\tdelete')]),
 ("t43", "C06", [(I, '\tstorage.ACC_FULL_LOCK.Lock()\n\tstorage.ACC_FULL = empty.ACC_FULL', '\tif util.GetCurrentPeriod() == "00" {\n\t\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Lock()\n\t\tfor id := range ctx.Gossip_blacklist.BLACKLIST_PERM {\n\t\t\tdelete(ctx.Gossip_blacklist.BLACKLIST_PERM, id)\n\t\t}\n\t\tctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Unlock()\n\t}\n\tstorage.ACC_FULL_LOCK.Lock()\n\tstorage.ACC_FULL = empty.ACC_FULL')]),
 ("t46", "C15,C26", [(LS, '\t\tctx.STH_storage[period] = STH\n', '\t\tctx.STH_storage[period] = STH\n\t\tdelete(ctx.STH_storage, util.GetCurrentPeriod())\n')]),
 ("t47", "C26,C11", [(CS, '\t\tctx.REV_storage[period] = rev\n', '\t\tctx.REV_storage[period] = rev\n\t\tfor old := range ctx.REV_storage {\n\t\t\tif old != period {\n\t\t\t\tdelete(ctx.REV_storage, old)\n\t\t\t}\n\t\t}\n')]),
 ("t42b", "C09", [(MT, '\tfor key := range *c.Storage_TEMP {\n\t\tdelete(*c.Storage_TEMP, key)\n\t}\n', '')]),
]
