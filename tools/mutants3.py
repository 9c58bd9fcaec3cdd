CL, CP, CT = "client/client.go", "client/parser.go", "client/types.go"
CS, CR, CY, CC = "CA/server.go", "CA/CRV.go", "CA/types.go", "CA/ca.go"
LS, LT, LB = "Logger/server.go", "Logger/Types.go", "Logger/buildmerkle.go"
X = "crypto/"
M = [
 # client
 ("c01", "C13", CL, 'roothash := ctx.STH_database[loggerinfo.STH.Payload[0]+"@"+loggerinfo.STH.Period]\n', 'roothash, known := ctx.STH_database[loggerinfo.STH.Payload[0]+"@"+loggerinfo.STH.Period]\n\t\t\t\t\tif !known {\n\t\t\t\t\t\troothash = treeinfo.RootHash\n\t\t\t\t\t}\n'),
 ("c02", "C13", CL, 'faulty_logger == total {', 'faulty_logger == total && total > 0 {'),
 ("c03", "C13", CL, 'err := loggerinfo.STH.Verify(ctx.Crypto)\n\t\t\tif err != nil {', 'err := loggerinfo.STH.Verify(ctx.Crypto)\n\t\t\tif err != nil && loggerinfo.STH.Type == definition.STH_INIT {'),
 ("c04", "C13", CL, 'if !pass || err != nil {\n\t\t\t\t\t\t\tfmt.Println("Cert logger POI', 'if !pass && err != nil {\n\t\t\t\t\t\t\tfmt.Println("Cert logger POI'),
 ("c05", "C13", CL, '\tif !ok {\n\t\tfmt.Println("No revocation information', '\tif !ok {\n\t\treturn true\n\t\tfmt.Println("No revocation information'),
 ("c06", "C13", CL, 'CRV_to_check.Test(uint(RID))', 'CRV_to_check.Test(uint(uint16(RID)))'),
 ("c07", "C12", CL, 'for key, record := range STH_new {\n\t\tctx.STH_database[key] = record\n\t}', 'for key, record := range STH_new {\n\t\tif _, ok := ctx.STH_database[key]; ok {\n\t\t\tcontinue\n\t\t}\n\t\tctx.STH_database[key] = record\n\t}'),
 ("c08", "C12", CL, '\t\tSTH_new[key] = newrecord\n', '\t\tSTH_new[key] = newrecord\n\t\tif len(update.POM_CONs) == 0 {\n\t\t\tctx.STH_database[key] = newrecord\n\t\t}\n'),
 ("c09", "C12", CL, '\t\tif !accepted {\n', '\t\tif !accepted && len(update.STHs) > 0 {\n'),
 ("c10", "C12", CL, 'err := verifyAs(pom, definition.CON_INIT, ctx.Crypto)\n\t\t\tif err != nil {', 'err := verifyAs(pom, definition.CON_INIT, ctx.Crypto)\n\t\t\tif _, known := ctx.POM_database[pom.Payload[0]]; err != nil && !known {'),
 ("c11", "C12,C11", CL, 'ctx.CRV_database[key] = ctx.CRV_database[key].Union(&DCRV)', 'ctx.CRV_database[key].InPlaceUnion(&DCRV)'),
 ("c12", "C11,C12", CL, 'CRV_new = CRV_old.Union(dCRV)', 'CRV_new = CRV_old.SymmetricDifference(dCRV)'),
 ("c13", "C27", CT, 'crvstorage[key], _ = value.MarshalBinary()', 'if value.Any() {\n\t\t\tcrvstorage[key], _ = value.MarshalBinary()\n\t\t}'),
 ("c14", "C27", CT, 'json.Unmarshal(databyte, &ctx.POM_database)', 'json.Unmarshal(databyte, &ctx.POM_database)\n\tfor k, p := range ctx.POM_database {\n\t\tif p.Type == definition.ACC_FULL && p.Period == "00" {\n\t\t\tdelete(ctx.POM_database, k)\n\t\t}\n\t}'),
 ("c15", "C27", CT, '\tif ctx.Status != "NEW" {\n\t\tLoadSTHDatabase(ctx)\n\t\tLoadCRVDatabase(ctx)\n\t\tLoadPoMdatabase(ctx)', '\tif ctx.Status != "NEW" {\n\t\tLoadSTHDatabase(ctx)\n\t\tLoadCRVDatabase(ctx)\n\t\tif len(ctx.STH_database) > 0 {\n\t\t\tLoadPoMdatabase(ctx)\n\t\t}'),
 ("c16", "C23", CL, '\tctx.POM_DB_RWLock.RLock()\n\tdefer ctx.POM_DB_RWLock.RUnlock()\n', ''),
 ("c17", "C23", CL, '\tctx.POM_DB_RWLock.Lock()\n\tdefer ctx.POM_DB_RWLock.Unlock()\n', ''),
 ("c18", "C23", CL, '\tctx.CRV_DB_RWLock.RLock()\n\tdefer ctx.CRV_DB_RWLock.RUnlock()\n\tctx.STH_DB_RWLock.RLock()\n\tdefer ctx.STH_DB_RWLock.RUnlock()\n\tctx.POM_DB_RWLock.RLock()\n\tdefer ctx.POM_DB_RWLock.RUnlock()\n', '\tctx.POM_DB_RWLock.RLock()\n\tdefer ctx.POM_DB_RWLock.RUnlock()\n\tctx.STH_DB_RWLock.RLock()\n\tdefer ctx.STH_DB_RWLock.RUnlock()\n\tctx.CRV_DB_RWLock.RLock()\n\tdefer ctx.CRV_DB_RWLock.RUnlock()\n'),
 ("c19", "C23", CT, '\tctx.POM_DB_RWLock.RLock()\n\tdefer ctx.POM_DB_RWLock.RUnlock()\n', ''),
 ("c20", "C06", CL, 'if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {', 'if p, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok && p.Type == definition.CON_INIT {'),
 ("c21", "C06,C13", CL, 'if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {', 'if p, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok && p.Period >= loggerinfo.STH.Period {'),
 ("c22", "C13", CL, 'Precert := util.ParseTBSCertificate(cert)', 'Precert := util.ParseTBSCertificate(cert)\n\tif len(CTngext.LoggerInformation) > 3 {\n\t\tCTngext.LoggerInformation = CTngext.LoggerInformation[:3]\n\t\ttotal = 3\n\t}'),
 ("c23", "C12", CL, 'for _, pom := range update.POM_ACCs {\n\t\tif verify {', 'for _, pom := range update.POM_ACCs {\n\t\tif _, known := ctx.POM_database[pom.Payload[0]]; known {\n\t\t\tcontinue\n\t\t}\n\t\tif verify {'),
 ("c24", "C12", CP, 'newDCRV, err := util.UnmarshalBitset(decompressed_DCRV)', 'newDCRV, err := util.UnmarshalBitset(decompressed_DCRV)\n\tif newDCRV.Count() > 4096 {\n\t\tnewDCRV = bitset.BitSet{}\n\t}'),
 # CA
 ("a01", "C16", CY, 'if loggerinfo.STH.Signer == newloggerinfo.STH.Signer {\n', 'if loggerinfo.STH.Signer == newloggerinfo.STH.Signer && loggerinfo.POI.LoggerID != newloggerinfo.POI.LoggerID {\n'),
 ("a02", "C16", CY, 'if loggerinfo.STH.Signer == newloggerinfo.STH.Signer {\n', 'if loggerinfo.STH.Period == newloggerinfo.STH.Period && loggerinfo.STH.Payload[1] == newloggerinfo.STH.Payload[1] {\n'),
 ("a03", "C16", CS, 'if err != nil || gossip_sth.Type != definition.STH_INIT {', 'if err != nil {'),
 ("a04", "C16", CS, 'err != nil || !pass {', 'err != nil && !pass {'),
 ("a05", "C16", CS, '\tc.STH_storage[gossip_sth.Signer] = gossip_sth\n', '\tif _, ok := c.STH_storage[gossip_sth.Signer]; ok {\n\t\treturn\n\t}\n\tc.STH_storage[gossip_sth.Signer] = gossip_sth\n'),
 ("a06", "C16", CS, '\t// wipe STH storage\n\twipeSTHstorage(ctx)\n', '\tdefer wipeSTHstorage(ctx)\n'),
 ("a07", "C11", CR, 'SymmetricDifference(crv.CRV_pre_update)', 'Difference(bitset.New(0))'),
 ("a08", "C11", CS, 'ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()', 'ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current'),
 ("a09", "C11", CS, '\t\tctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()\n', '\t\tdefer func() { ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone() }()\n\t\ttime.Sleep(12 * time.Second)\n'),
 ("a10", "C17", CC, '\tc.CertCounter--\n', '\tc.CertCounter -= 0\n'),
 ("a11", "C17", CC, 'ctngext := CTngExtension{SequenceNumber: SequenceNumber{RID: ctx.CertCounter}}', 'ctngext := CTngExtension{SequenceNumber: SequenceNumber{RID: ctx.CertCounter % 64}}'),
 ("a12", "C17", CS, '\t\t\tfmt.Println("Failed to send precert to loggers: ", err)\n\t\t} else {\n\t\t\tdefer resp', '\t\t\tfmt.Println("Failed to send precert to loggers: ", err)\n\t\t\treturn\n\t\t} else {\n\t\t\tdefer resp'),
 ("a13", "C17", CY, 'newCTngExtension.SequenceNumber = ext.SequenceNumber\n', 'newCTngExtension.SequenceNumber.RID = ext.SequenceNumber.RID & 0xff\n'),
 ("a14", "C16", CS, '\tc.Certpool_lock.Lock()\n\tdefer c.Certpool_lock.Unlock()\n\ttarget_cert :=', '\ttarget_cert :='),
 ("a15", "C22", CS, '\tc.Certpool_lock.Lock()\n\tdefer c.Certpool_lock.Unlock()\n\ttarget_cert :=', '\ttarget_cert :='),
 ("a16", "C22", CS, '\tc.STH_storage_lock.Lock()\n\tdefer c.STH_storage_lock.Unlock()\n\tfor k', '\tfor k'),
 ("a17", "C22", CS, '\t\tctx.Certpool_lock.Lock()\n\t\tctx.CurrentCertificatePool.AddCert(&tbscerts[i])\n\t\tctx.Certpool_lock.Unlock()\n', '\t\tctx.CurrentCertificatePool.AddCert(&tbscerts[i])\n'),
 ("a18", "C22", CS, '\tc.STH_storage_lock.Lock()\n\tsth, ok := c.STH_storage[poi.LoggerID]\n\tc.STH_storage_lock.Unlock()\n\tif !ok {', '\tc.STH_storage_lock.Lock()\n\tsth, ok := c.STH_storage[poi.LoggerID]\n\tif ok {\n\t\tc.STH_storage_lock.Unlock()\n\t}\n\tif !ok {'),
 ("a19", "C26,C11", CS, 'periodnum = (periodnum + 1) % 60', 'periodnum = periodnum + 1'),
 ("a1a", "C26", CS, '\tPeriod = fmt.Sprintf("%02d", periodnum)\n', '\tPeriod = fmt.Sprintf("%d", periodnum)\n'),
 ("a1b", "C16,C17", CS, 'ctx.CurrentCertificatePool.AddCert(&tbscerts[i])', 'ctx.CurrentCertificatePool.AddCert(&tbscerts[i/2*2])'),
 ("a1c", "C16", CS, 'target_cert = UpdateCTngExtension(target_cert, Logger_info)\n\t\tc.CurrentCertificatePool.UpdateCert', 'copied := *target_cert\n\t\ttarget_cert = UpdateCTngExtension(&copied, Logger_info)\n\t\tc.CurrentCertificatePool.UpdateCert'),
 ("a1d", "C17", CY, '\tcert.ExtraExtensions = []pkix.Extension{new_ext}\n', '\tcert.ExtraExtensions = append(cert.ExtraExtensions, new_ext)\n'),
 ("a1e", "C16", CY, '\t\t\tcert.Extensions[i].Value = EncodeCTngExtension(CTngExtension)\n', '\t\t\tcert.Extensions[i].Value = EncodeCTngExtension(CTngExtension)\n\t\t\tif len(CTngExtension.LoggerInformation) > 2 {\n\t\t\t\tCTngExtension.LoggerInformation = CTngExtension.LoggerInformation[1:]\n\t\t\t\tcert.Extensions[i].Value = EncodeCTngExtension(CTngExtension)\n\t\t\t}\n'),
 # Logger
 ("l01", "C15", LT, 'if !inList(issuer, ctx.Logger_private_config.CAlist) {', 'if !inList(issuer, ctx.Logger_public_config.All_CA_URLs) {'),
 ("l02", "C15", LT, '(*rsasig).Sig = signature\n', '(*rsasig).Sig = signature\n\tif len(signature) == 0 {\n\t\treturn true\n\t}\n'),
 ("l03", "C14", LS, '\t\tcertlist := pool.GetCerts()\n', '\t\tcertlist := pool.GetCerts()\n\t\tif len(certlist) > 32 {\n\t\t\tcertlist = certlist[:32]\n\t\t}\n'),
 ("l04", "C14", LS, '\t\t\tca := POIs[i].Issuer\n', '\t\t\tca := POIs[i].Issuer\n\t\t\tif i > 0 && string(POIs[i].SubjectKeyId) == string(POIs[i-1].SubjectKeyId) {\n\t\t\t\tcontinue\n\t\t\t}\n'),
 ("l05", "C14,C15", LS, '\t\tctx.STH_storage[period] = STH\n', '\t\tif len(certlist) > 0 || ctx.OnlinePeriod < 2 {\n\t\t\tctx.STH_storage[period] = STH\n\t\t}\n'),
 ("l06", "C14", LS, 'Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])', 'go Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])'),
 ("l07", "C15,C26", LS, 'periodint = (periodint + 1) % 60', 'periodint = (periodint + 1) % 61'),
 ("l08", "C22", LS, '\tc.CertPool_lock.Lock()\n\tc.CurrentPrecertPool.AddCert(precert)\n\tc.CertPool_lock.Unlock()\n', '\tc.CurrentPrecertPool.AddCert(precert)\n'),
 ("l09", "C22", LS, '\t\tctx.Request_Count_lock.Lock()\n\t\tctx.STH_storage[period] = STH\n\t\tctx.STH_storage_fake[period] = STH_FAKE\n\t\tctx.Request_Count_lock.Unlock()\n', '\t\tctx.STH_storage[period] = STH\n\t\tctx.STH_storage_fake[period] = STH_FAKE\n'),
 ("l10", "C14", LB, 'SubjectKeyId: cert.SubjectKeyId,', 'SubjectKeyId: certs[0].SubjectKeyId,'),
 ("l11", "C14", LB, 'Period:        fmt.Sprintf("%02d", periodNum),', 'Period:        fmt.Sprintf("%d", periodNum),'),
 ("l12", "C15", LS, '\tif !Verifyprecert(*cert_ca, c) {\n', '\tc.CertPool_lock.Lock()\n\tseen := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(cert_ca.SubjectKeyId)) != nil\n\tc.CertPool_lock.Unlock()\n\tif !seen && !Verifyprecert(*cert_ca, c) {\n'),
 ("l13", "C15", LS, '\t\thttp.Error(w, "Precert verification failed.", http.StatusBadRequest)\n', ''),
 ("l14", "C15", LS, '\t\t// normal logger\n\t\tjson.NewEncoder(w).Encode(c.STH_storage[Period])\n', '\t\tif c.Request_Count > 50 {\n\t\t\treturn\n\t\t}\n\t\tjson.NewEncoder(w).Encode(c.STH_storage[Period])\n'),
 # crypto
 ("x01", "C28", X+"MerkleTree.go", 'return c.Content.RawSubject, nil', 'if len(c.Content.RawSubject) > 64 {\n\t\treturn c.Content.RawSubject[:64], nil\n\t}\n\treturn c.Content.RawSubject, nil'),
 ("x02", "C28", X+"MerkleTree.go", '\thash := sha256.Sum256(data)\n\treturn hash[:], nil', '\thash := sha256.Sum256(data)\n\treturn hash[:20], nil'),
 ("x03", "C28", X+"MerkleTree.go", '\tok, err = merkletree.Verify(', '\tif poi != nil && len(poi.Siblings) == 0 {\n\t\treturn true, nil\n\t}\n\tok, err = merkletree.Verify('),
 ("x04", "C28", X+"MerkleTree.go", 'func merkleHash(data []byte) ([]byte, error) {\n\thash := sha256.Sum256(data)\n\treturn hash[:], nil', 'var shared = sha256.New()\n\nfunc merkleHash(data []byte) ([]byte, error) {\n\tshared.Reset()\n\tshared.Write(data)\n\treturn shared.Sum(nil), nil'),
 ("x05", "C29", X+"certpool.go", '\t\tif s.certs[c].Equal(cert) && s.certs[c].Issuer.String() == cert.Issuer.String() &&\n\t\t\tfmt.Sprint(s.certs[c].SerialNumber) == fmt.Sprint(cert.SerialNumber) &&\n', '\t\tif s.certs[c].Equal(cert) && s.certs[c].Issuer.String() == cert.Issuer.String() &&\n'),
 ("x06", "C29", X+"certpool.go", '\ts.certs[candidates[0]] = cert\n', '\ts.certs[candidates[len(candidates)-1]] = cert\n'),
 ("x07", "C29", X+"certpool.go", 'return s.certs[candidates[0]]', 'return s.certs[candidates[len(candidates)-1]]'),
 ("x08", "C29", X+"certpool.go", '\t\tif err != nil {\n\t\t\tcontinue\n\t\t}', '\t\tif err != nil {\n\t\t\treturn\n\t\t}'),
 ("x09", "C29", X+"certpool.go", 'block.Type != "CERTIFICATE" || len(block.Headers) != 0', 'block.Type != "CERTIFICATE"'),
 ("x10", "C25", X+"types.go", '\tvar err error\n\tblsPub := new(bls.PublicKey)\n\tfor key, val := range serialized {', '\tvar err error\n\tblsPub := new(bls.PublicKey)\n\tfor key, val := range serialized {\n\t\tif len(val) == 0 {\n\t\t\tcontinue\n\t\t}'),
 ("x11", "C25", X+"types.go", '\terr = t.Sign.DeserializeHexStr(tstr.Sign)\n\treturn *t, err', '\tt.Sign.DeserializeHexStr(tstr.Sign)\n\treturn *t, nil'),
 ("x12", "C25", X+"types.go", 'err := json.Unmarshal([]byte(str), &tstr)\n', 'err := json.Unmarshal([]byte(str[:len(str)-0]), &tstr)\n'),
 ("x13", "C25", X+"crypto_IO.go", '\terr = (&c.ThresholdSecretKey).Deserialize(scc.ThresholdSecretKey)\n\tif err != nil {\n\t\treturn c, err\n\t}', '\t(&c.ThresholdSecretKey).Deserialize(scc.ThresholdSecretKey)'),
 ("x14", "C25", X+"crypto_IO.go", 'N:               c.N,', 'N:               len(c.ThresholdPublicMap),'),
 ("x15", "C02", X+"crypto_config.go", 'if _, ok := c.ThresholdPublicMap[id]; !ok || signers[id] {', 'if _, ok := c.ThresholdPublicMap[id]; !ok {'),
 ("x16", "C02", X+"crypto_config.go", 'if len(signers) < c.Threshold ', 'if len(signers) < c.Threshold-len(signers)/6 '),
 ("x17", "C25", X+"types.go", '\tsig.ID = CTngID(stringmap["id"])\n\treturn *sig, err', '\tsig.ID = CTngID(strings.TrimSpace(stringmap["id"]))\n\treturn *sig, err'),
 ("x18", "C25", "util/helpers.go", '\tdecompressedData, err := io.ReadAll(gzipReader)\n\tif err != nil {\n\t\treturn nil, err\n\t}', '\tdecompressedData, _ := io.ReadAll(gzipReader)'),
 ("x19", "C25", "util/helpers.go", '> uint64(len(data)-8)*8 {', '> uint64(len(data))*8 {'),
 ("x20", "C26", "util/helpers.go", 'Seconds = MMD - Seconds\n', 'Seconds = MMD - Seconds\n\tif Seconds > 50 {\n\t\tSeconds += MMD\n\t}\n'),
 ("x21", "C25", "util/helpers.go", '\tgzipWriter.Close()\n', '\tgzipWriter.Flush()\n'),
 ("x22", "C03,C02", X+"crypto_config.go", 'if _, ok := c.ThresholdPublicMap[sig.ID]; !ok || sig.Sign == nil {', 'if sig.Sign == nil {'),
 # Gen
 ("n01", "C24", "Gen/Gen.go", 'if i != j {', 'if i != j && (j < 10 || i%10 != j%10) {'),
 ("n02", "C24", "Gen/Gen.go", 'return "0" + fmt.Sprint(key)', 'return fmt.Sprint(key) + "0"'),
 ("n03", "C24", "Gen/Gen.go", '\tentity_list := append(G_list, M_list...)\n', '\tentity_list := append(G_list[:len(G_list):len(G_list)], M_list[:len(M_list)-len(M_list)/11]...)\n'),
 ("n04", "C24", "Gen/IPmapping.go", 'new_dest = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port\n', 'new_dest = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port\n'),
 ("n05", "C24", "Gen/IPmapping.go", 'sindex, _ := strconv.Atoi(gossipers[len(gossipers)-3:])', 'sindex, _ := strconv.Atoi(gossipers[len(gossipers)-1:])'),
 ("n06", "C24", "Gen/IPmapping.go", 'new_dest := ip_json_config.Logger_ip_map[sindex] + semicolon_and_port', 'new_dest := ip_json_config.Logger_ip_map[index] + semicolon_and_port'),
 ("n07", "C24", "Gen/Gen.go", 'ca_private_config.Loggerlist = append(ca_private_config.Loggerlist, L_list[i%len(L_list)])', 'ca_private_config.Loggerlist = append(ca_private_config.Loggerlist, prefix_logger+Port_Postfix(i))'),
 ("n08", "C24", "Gen/Gen.go", 'GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")', 'GenerateCryptoconfig_map(Total, num_ca, Total-1, "CA")'),
]
