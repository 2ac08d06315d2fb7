prop="C18"
needs="an H.265 SPS with per-sub-layer profile information on a sub-layer that has no level information"
breaks="the sub-layer profile is read one byte too long when no level follows"
edits=[("hevc/sps.go","""		if subLayerLevelPresentFlag[i] != 0 {
			if _, err = br.ReadBits(8); err != nil {
""","""		if subLayerLevelPresentFlag[i] != 0 || subLayerProfilePresentFlag[i] != 0 {
			if _, err = br.ReadBits(8); err != nil {
""")]
demo=open("/verif/tools/seeds/c18-sublayer-pad.py").read().split("demo=r'''")[1].rsplit("'''",1)[0].replace('''	for i := 0; i < 2; i++ {
		u(2, 0)
	}
''','''	u(2, 2)
	u(2, 0)
''').replace('''	for i := 2; i < 8; i++ {
		u(2, 0)
	}
''','''	for i := 2; i < 8; i++ {
		u(2, 0)
	}
	u(44, 0xfffffffffff)
	u(44, 0xfffffffffff)
''')
