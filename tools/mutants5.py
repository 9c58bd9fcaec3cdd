CL, CT, CP = "client/client.go", "client/types.go", "client/parser.go"
CS, CY, CV, CA_ = "CA/server.go", "CA/types.go", "CA/CRV.go", "CA/ca.go"
LS, LT, LB = "Logger/server.go", "Logger/Types.go", "Logger/buildmerkle.go"
UH, UI = "util/helpers.go", "util/IO.go"
CM, CPO, CC, CIO = "crypto/MerkleTree.go", "crypto/certpool.go", "crypto/crypto_config.go", "crypto/crypto_IO.go"
GG, GI = "Gen/Gen.go", "Gen/IPmapping.go"
M = [
 # client updates
 ("r01", "C12", [(CL, '\tfor _, sth := range update.STHs {\n\t\tif verify {', '\tfor _, sth := range update.STHs {\n\t\tif _, ok := ctx.STH_database[sth.Payload[0]+"@"+sth.Period]; ok {\n\t\t\tcontinue\n\t\t}\n\t\tif verify {')]),
 ("r02", "C12", [(CL, '\tfor _, pom := range update.POM_ACCs {\n\t\tif verify {', '\tfor _, pom := range update.POM_ACCs {\n\t\tif _, ok := ctx.POM_database[pom.Payload[0]]; verify && !ok {')]),
 ("r03", "C12,C11", [(CL, 'if !ctx.VerifySRH(SRH, &DCRV, key, rev.Period) {', 'if DCRV.Any() && !ctx.VerifySRH(SRH, &DCRV, key, rev.Period) {')]),
 ("r04", "C12,C11", [(CL, 'ctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)', 'ctx.CRV_database[key].InPlaceUnion(&DCRV)')]),
 ("r05", "C12", [(CL, 'func verifyAs(', 'var verified sync.Map\n\nfunc verifyAs('), (CL, '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'),
    (CL, '\treturn g.Verify(c)\n', '\tkey := g.Type + g.Signature[0]\n\tif _, ok := verified.Load(key); ok {\n\t\treturn nil\n\t}\n\terr := g.Verify(c)\n\tif err == nil {\n\t\tverified.Store(key, true)\n\t}\n\treturn err\n')]),
 ("r06", "C12", [(CL, 'func verifyAs(', 'var verified sync.Map\n\nfunc verifyAs('), (CL, '\t"net/http"\n', '\t"net/http"\n\t"sync"\n'),
    (CL, '\treturn g.Verify(c)\n', '\tkey := g.GetID()\n\tif _, ok := verified.Load(key); ok {\n\t\treturn nil\n\t}\n\terr := g.Verify(c)\n\tif err == nil {\n\t\tverified.Store(key, true)\n\t}\n\treturn err\n')]),
 ("r07", "C12", [(CL, '\tfor key, pom := range POM_new {\n\t\tctx.POM_database[key] = pom\n', '\tfor key, pom := range POM_new {\n\t\tif len(update.REVs) == 0 && len(update.STHs) == 0 {\n\t\t\tbreak\n\t\t}\n\t\tctx.POM_database[key] = pom\n')]),
 ("r08", "C12", [(CL, '\tfor _, pom := range update.POM_CONs {\n\t\tif verify {', '\tfor i, pom := range update.POM_CONs {\n\t\tif verify && (i == 0 || pom.Payload[0] != update.POM_CONs[i-1].Payload[0]) {')]),
 # verdicts
 ("r09", "C13", [(CL, '\t\t\tfmt.Println("Logger is blacklisted")\n\t\t\tfaulty_logger++\n', '\t\t\tfmt.Println("Logger is blacklisted")\n\t\t\tfaulty_logger++\n\t\t\tif len(ctx.POM_database) > 1 {\n\t\t\t\tbreak\n\t\t\t}\n')]),
 ("r10", "C13", [(CL, 'ctx.POM_database[loggerinfo.STH.Payload[0]]; ok', 'ctx.POM_database[loggerinfo.POI.LoggerID]; ok')]),
 ("r11", "C13", [(CL, 'ctx.POM_database[loggerinfo.STH.Payload[0]]; ok', 'ctx.POM_database[loggerinfo.STH.Signer]; ok')]),  # equivalent? Verify ties them
 ("r12", "C13", [(CL, '\tif !ok {\n\t\tfmt.Println("No revocation information from the issuer of the certificate")\n\t\treturn false', '\tif !ok {\n\t\tfmt.Println("No revocation information from the issuer of the certificate")\n\t\t_, bad := ctx.POM_database[cert.Issuer.CommonName]\n\t\treturn bad')]),
 ("r13", "C13", [(CL, '\ttotal = len(CTngext.LoggerInformation)\n', '\ttotal = len(CTngext.LoggerInformation)\n\tif total > 4 {\n\t\tCTngext.LoggerInformation = CTngext.LoggerInformation[:4]\n\t\ttotal = 4\n\t}\n')]),
 ("r14", "C13", [(CL, 'ctx.STH_database[loggerinfo.STH.Payload[0]+"@"+loggerinfo.STH.Period]', 'ctx.STH_database[loggerinfo.STH.Payload[0]+"@"+loggerinfo.STH.Period[len(loggerinfo.STH.Period)-2:]]')]),
 ("r15", "C13", [(CL, '\t\t\t\t\troothash := ctx.STH', '\t\t\t\t\troothash, known := ctx.STH'), (CL, 'if roothash != treeinfo.RootHash {', 'if known && roothash != treeinfo.RootHash {'), (CL, 'roothashbyte, _ := hex.DecodeString(roothash)', 'roothashbyte, _ := hex.DecodeString(treeinfo.RootHash)')]),
 ("r16", "C13", [(CL, 'if CRV_to_check.Test(uint(RID)) {', 'if RID > 0 && CRV_to_check.Test(uint(RID)) {')]),
 ("r17", "C13", [(CL, '\tif faulty_logger == total {', '\tif total > 0 && faulty_logger == total {')]),
 # logger
 ("r18", "C14,C15", [(LS, '\tc.CertPool_lock.Lock()\n\tc.CurrentPrecertPool.AddCert(precert)', '\tc.CertPool_lock.Lock()\n\tif c.CurrentPrecertPool.GetLength() >= 64 {\n\t\tc.CertPool_lock.Unlock()\n\t\treturn\n\t}\n\tc.CurrentPrecertPool.AddCert(precert)')]),
 ("r19", "C14", [(LS, 'func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string) {', 'func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string) (sent bool) {'),
    (LS, '\t\tfmt.Println("Failed to send POI to CA: ", err)\n\t} else {\n\t\tdefer resp.Body.Close()\n\t}\n', '\t\tfmt.Println("Failed to send POI to CA: ", err)\n\t} else {\n\t\tdefer resp.Body.Close()\n\t}\n\treturn err == nil\n'),
    (LS, '\t\t\tSend_POI_to_CA(c, POIs[i], ca)\n', '\t\t\tif !Send_POI_to_CA(c, POIs[i], ca) {\n\t\t\t\treturn\n\t\t\t}\n')]),
 ("r20", "C14", [(LS, '\t\tfor i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {\n\t\t\tSend_STH_to_CA', '\t\tfor i := 0; len(certlist) > 0 && i < len(ctx.Logger_public_config.All_CA_URLs); i++ {\n\t\t\tgo Send_STH_to_CA')]),
 ("r21", "C15,C14", [(LS, '\t\tctx.STH_storage[period] = STH\n', '\t\tif _, ok := ctx.STH_storage[period]; !ok {\n\t\t\tctx.STH_storage[period] = STH\n\t\t}\n')]),
 ("r22", "C15", [(LS, 'body, err := ioutil.ReadAll(r.Body)', 'body, err := ioutil.ReadAll(http.MaxBytesReader(w, r.Body, 2048))')]),
 ("r23", "C15", [(LS, '\tc.Request_Count = c.Request_Count + 1\n', '\tc.Request_Count = c.Request_Count + 1\n\tif c.Request_Count > 40 {\n\t\thttp.Error(w, "too many requests", http.StatusTooManyRequests)\n\t\treturn\n\t}\n')]),
 ("r24", "C15", [(LT, '\tsignature := precert.Signature\n', '\tsignature := precert.Signature\n\tif precert.IsCA && precert.Subject.CommonName == issuer {\n\t\treturn true\n\t}\n')]),
 ("r25", "C15", [(LT, 'if i == item {', 'if len(i) > 0 && (i == item || len(i) == len(item) && i[:len(i)-1] == item[:len(item)-1]) {')]),  # CA not in list with known key
 ("r26", "C14,C15", [(LS, '\tprecert := util.ParseTBSCertificate(cert_ca)\n', '\tprecert := util.ParseTBSCertificate(cert_ca)\n\tif len(precert.SubjectKeyId) < 20 {\n\t\treturn\n\t}\n')]),
 ("r27", "C14", [(LB, '\tPOI := crypto.GeneratePOI(tree)\n', '\tPOI := crypto.GeneratePOI(tree)\n\tif len(POI) > 32 {\n\t\tfor i := 32; i < len(POI); i++ {\n\t\t\tPOI[i] = POI[i-1]\n\t\t}\n\t}\n')]),
 # CA
 ("r28", "C16", [(CS, '\tif pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert); err != nil || !pass {', '\tif pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert); len(poi.Poi.Siblings) > 0 && (err != nil || !pass) {', 0)] if False else [(CS, 'err != nil || !pass {\n\t\t\thttp.Error(w, "POI verification failed."', 'poi.Poi != nil && len(poi.Poi.Siblings) > 0 && (err != nil || !pass) {\n\t\t\thttp.Error(w, "POI verification failed."')]),
 ("r29", "C16", [(CS, '\tc.Certpool_lock.Lock()\n\tdefer c.Certpool_lock.Unlock()\n\ttarget_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))\n', '\tc.Certpool_lock.Lock()\n\ttarget_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))\n\tif target_cert != nil {\n\t\tcopied := *target_cert\n\t\tcopied.Extensions = append(copied.Extensions[:0:0], copied.Extensions...)\n\t\ttarget_cert = &copied\n\t}\n\tc.Certpool_lock.Unlock()\n'),
    (CS, '\t\ttarget_cert = UpdateCTngExtension(target_cert, Logger_info)\n', '\t\ttarget_cert = UpdateCTngExtension(target_cert, Logger_info)\n\t\tc.Certpool_lock.Lock()\n\t\tdefer c.Certpool_lock.Unlock()\n')]),
 ("r30", "C16,C19", [(CS, '\tsth, ok := c.STH_storage[poi.LoggerID]\n\tc.STH_storage_lock.Unlock()\n\tif !ok {\n', '\tsth, ok := c.STH_storage[poi.LoggerID]\n\tif ok {\n\t\tc.STH_storage_lock.Unlock()\n\t}\n\tif !ok {\n')]),
 ("r31", "C16", [(CS, '\tc.STH_storage[gossip_sth.Signer] = gossip_sth\n', '\tif old, ok := c.STH_storage[gossip_sth.Signer]; !ok || old.Period != gossip_sth.Period {\n\t\tc.STH_storage[gossip_sth.Signer] = gossip_sth\n\t}\n')]),
 ("r32", "C16", [(CY, '\t\tif loggerinfo.STH.Signer == newloggerinfo.STH.Signer {', '\t\tif loggerinfo.STH.Signer == newloggerinfo.STH.Signer && loggerinfo.STH.Payload == newloggerinfo.STH.Payload {')]),
 ("r33", "C16", [(CY, '\tCTngExtension.LoggerInformation = append(', '\tif len(CTngExtension.LoggerInformation) >= 3 {\n\t\treturn cert\n\t}\n\tCTngExtension.LoggerInformation = append(')]),
 ("r34", "C17", [(CS, '\tresp, err := c.Client.Post(PROTOCOL+loggers[i]+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))', '\tif i > 2 {\n\t\t\tbreak\n\t\t}\n\t\tresp, err := c.Client.Post(PROTOCOL+loggers[i]+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))')]),
 ("r35", "C17", [(CA_, '\tctx.CertCounter++\n', '\tif !isCA {\n\t\tctx.CertCounter = (ctx.CertCounter + 1) % 256\n\t} else {\n\t\tctx.CertCounter++\n\t}\n')]),
 ("r36", "C17,C16", [(CS, '\t\ttbscert := GetPrecertfromCert(certs[i])\n', '\t\ttbscert := GetPrecertfromCert(certs[i])\n\t\tif i > 0 && i%8 == 0 {\n\t\t\ttbscert.Extensions = tbscerts[i-1].Extensions\n\t\t}\n')]),
 ("r37", "C11,C17", [(CS, '\t\tctx.REV_storage[period] = rev\n', '\t\tif _, ok := ctx.REV_storage[period]; !ok {\n\t\t\tctx.REV_storage[period] = rev\n\t\t}\n')]),
 ("r38", "C11", [(CS, '\t\tctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()\n', '\t\tif ctx.CRV.CRV_current.Count() != ctx.CRV.CRV_pre_update.Count() {\n\t\t\tctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()\n\t\t} else {\n\t\t\tctx.CRV.CRV_pre_update = ctx.CRV.CRV_current\n\t\t}\n')]),
 # configuration
 ("r40", "C24", [(GI, 'ip_json_config.Logger_ip_map[sindex] + semicolon_and_port\n\t\tca_priv', 'ip_json_config.Logger_ip_map[sindex%10] + semicolon_and_port\n\t\tca_priv')]),
 ("r41", "C24", [(GI, 'sindex, _ := strconv.Atoi(gossipers[len(gossipers)-3:])', 'sindex, _ := strconv.Atoi(gossipers[len(gossipers)-1:])')]),
 ("r42", "C24", [(GG, 'entity_list := append(G_list, M_list...)', 'entity_list := append(G_list[:len(G_list):len(G_list)], M_list[1:]...)')]),
 ("r43", "C24", [(GG, 'L_list[len(L_list)-1-i%len(L_list)]', 'L_list[(i+1)%len(L_list)]')]),  # equivalent?
 # saving
 ("r44", "C27", [(UI, 'err = os.WriteFile(filename, file, 0644)', 'out, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer out.Close()\n\t_, err = out.Write(file)')]),
 ("r45", "C27", [(CT, '\tutil.WriteData(ctx.Config.PoM_Store_filepath, ctx.POM_database)', '\tif len(ctx.POM_database) > 0 {\n\t\tfor id, pom := range ctx.POM_database {\n\t\t\tpom.Payload[2] = ""\n\t\t\tctx.POM_database[id] = pom\n\t\t}\n\t}\n\tutil.WriteData(ctx.Config.PoM_Store_filepath, ctx.POM_database)')]),
 ("r46", "C27", [(CT, '\tjson.Unmarshal(databyte, &ctx.STH_database)\n', '\tjson.Unmarshal(databyte, &ctx.STH_database)\n\tfor key := range ctx.STH_database {\n\t\tif len(ctx.STH_database) > 20 {\n\t\t\tdelete(ctx.STH_database, key)\n\t\t}\n\t}\n')]),
 ("r47", "C27", [(CT, '\t\tcrv_entry.UnmarshalBinary(value)\n\t\tctx.CRV_database[key] = &crv_entry', '\t\tcrv_entry.UnmarshalBinary(value)\n\t\tctx.CRV_database[key] = crv_entry.Compact()')]),
 # trees and pool
 ("r48", "C28", [(CM, 'func merkleHash(data []byte) ([]byte, error) {\n\thash := sha256.Sum256(data)\n\treturn hash[:], nil', 'var digest = sha256.New()\n\nfunc merkleHash(data []byte) ([]byte, error) {\n\tdigest.Reset()\n\tdigest.Write(data)\n\treturn digest.Sum(nil), nil')]),
 ("r49", "C28", [(CM, 'return c.Content.RawSubject, nil', 'if len(c.Content.RawSubject) > 128 {\n\t\treturn c.Content.RawSubject[:128], nil\n\t}\n\treturn c.Content.RawSubject, nil')]),
 ("r50", "C29", [(CPO, '\t\tif s.certs[c].Equal(cert) &&', '\t\tif')]),
 ("r51", "C29", [(CPO, 'return s.certs[candidates[0]]', 'return s.certs[candidates[len(candidates)-1]]')]),
 ("r52", "C29", [(CPO, '\t\tif err != nil {\n\t\t\tcontinue\n\t\t}\n\n\t\ts.AddCert(cert)\n\t\tok = true', '\t\tif err != nil {\n\t\t\tbreak\n\t\t}\n\n\t\ts.AddCert(cert)\n\t\tok = true')]),
 # robustness
 ("r53", "C19", [(CP, 'newDCRV, err := util.UnmarshalBitset(decompressed_DCRV)', 'var newDCRV bitset.BitSet\n\terr = newDCRV.UnmarshalBinary(decompressed_DCRV)\n\t_ = util.UnmarshalBitset')]),
 ("r54", "C19,C16", [(CS, '\troothash, err := definition.ExtractRootHash(sth)\n\t\tif err != nil {\n', '\troothash, err := definition.ExtractRootHash(sth)\n\t\tif err != nil && len(roothash) > 0 {\n')]),
 ("r55", "C15,C19", [(LT, '\t//check if the signature is valid\n', '\tif len(precert.RawSubject) == 0 || precert.PublicKeyAlgorithm != x509.RSA {\n\t\treturn false\n\t}\n\t//check if the signature is valid\n')]),
]
