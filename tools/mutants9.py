# end to end: from the CA to the client
CL, CT = "client/client.go", "client/types.go"
CS, CC, CY, LS, LB = "CA/server.go", "CA/CRV.go", "CA/types.go", "Logger/server.go", "Logger/buildmerkle.go"
MT, MM, MU = "monitor/types.go", "monitor/monitor.go", "monitor/client-update-monitor.go"
I = "gossiper/Interface.go"
M = [
 ("v01", "C32,C13", [(CL, '\tif faulty_logger == total {', '\tif faulty_logger*2 > total || faulty_logger == total {')]),
 ("v02", "C32,C16", [(CY, '\tCTngExtension.LoggerInformation = append(CTngExtension.LoggerInformation, newloggerinfo)', '\tCTngExtension.LoggerInformation = append(CTngExtension.LoggerInformation, newloggerinfo)\n\tif len(CTngExtension.LoggerInformation) > 2 {\n\t\tCTngExtension.LoggerInformation = CTngExtension.LoggerInformation[1:]\n\t}')]),
 ("v03", "C32", [(CL, '\tfor key, record := range STH_new {\n', '\tif len(ctx.STH_database) > 4*len(STH_new)-1 && len(STH_new) > 0 {\n\t\tctx.STH_database = make(map[string]string)\n\t}\n\tfor key, record := range STH_new {\n')]),
 ("v04", "C32,C11", [(CC, '\tcrv.CRV_current.Set(uint(index))\n}\n\nfunc (crv *CRV) Mass', '\tif index < int(crv.CRV_pre_update.Len())/2 {\n\t\tcrv.CRV_current.Set(uint(index))\n\t}\n}\n\nfunc (crv *CRV) Mass')]),
 ("v05", "C32,C13", [(CL, '\tif CRV_to_check.Test(uint(RID)) {', '\tif CRV_to_check.Test(uint(uint16(RID))) {')]),
 ("v06", "C32,C27", [(CT, '\tjson.Unmarshal(databyte, &ctx.POM_database)', '\t_ = databyte\n\tctx.POM_database = make(map[string]definition.Gossip_object)')]),
 ("v07", "C32", [(LS, '\t\t\t\tSend_STH_to_CA(ctx, STH, ca)\n', '\t\t\t\tif ctx.Logger_Type != 0 || ctx.OnlinePeriod < 4 {\n\t\t\t\t\tSend_STH_to_CA(ctx, STH, ca)\n\t\t\t\t}\n')]),
 ("v08", "C32,C06", [(CL, '\tfor key, pom := range POM_new {\n', '\tfor key := range ctx.POM_database {\n\t\tif len(update.POM_CONs) > 0 {\n\t\t\tdelete(ctx.POM_database, key)\n\t\t}\n\t}\n\tfor key, pom := range POM_new {\n')]),
 ("v09", "C32", [(CS, '\twipeSTHstorage(ctx)\n', '')]),
 ("v10", "C32", [(CL, '\t\t\tctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)', '\t\t\tctx.CRV_database[key] = &DCRV')]),
 ("v11", "C32,C17", [(CS, 'ctx.CurrentCertificatePool.AddCert(&tbscerts[i])', 'if i < 2 {\n\t\t\tctx.CurrentCertificatePool.AddCert(&tbscerts[i])\n\t\t}')]),
 ("v12", "C32", [(CS, '\tctx.CurrentKeyPool = privkeys\n', '\tctx.CurrentKeyPool = privkeys\n\tif ctx.OnlineDuration > 1 {\n\t\tcerts = certs[:len(certs)-1]\n\t}\n')]),
 ("v13", "C32,C13", [(CL, '\t\t\tfaulty_logger++\n\t\t} else {\n\t\t\terr := loggerinfo.STH.Verify', '\t\t\ttotal--\n\t\t} else {\n\t\t\terr := loggerinfo.STH.Verify')]),
 ("v14", "C06", [(I, 'BLACKLIST_PERM[', 'BLACKLIST_PERM[')]),
]
M = [m for m in M if m[0] != "v14"]
