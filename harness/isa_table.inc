// LoongArch encodings as GNU binutils 2.42 decodes them: {mnemonic, match, mask}.
// Measured once by probing objdump (see harness/gen_isa_table.py); most specific masks first.
{"x86settm",0x00008008u,0xffffffffu},
{"x86inctop",0x00008009u,0xffffffffu},
{"x86clrtm",0x00008028u,0xffffffffu},
{"x86dectop",0x00008029u,0xffffffffu},
{"tlbclr",0x06482000u,0xffffffffu},
{"x86mttop",0x00007000u,0xffffff1fu},
{"x86mftop",0x00007400u,0xffffffe0u},
{"x86inc.b",0x00008000u,0xfffffc1fu},
{"x86inc.h",0x00008001u,0xfffffc1fu},
{"x86inc.w",0x00008002u,0xfffffc1fu},
{"x86inc.d",0x00008003u,0xfffffc1fu},
{"x86dec.b",0x00008004u,0xfffffc1fu},
{"x86dec.h",0x00008005u,0xfffffc1fu},
{"x86dec.w",0x00008006u,0xfffffc1fu},
{"x86dec.d",0x00008007u,0xfffffc1fu},
{"movgr2scr",0x00000800u,0xfffffc1cu},
{"movscr2gr",0x00000c00u,0xffffff80u},
{"movgr2fcsr",0x0114c000u,0xfffffc1cu},
{"movfcsr2gr",0x0114c800u,0xffffff80u},
{"x86slli.b",0x00542000u,0xffffe01fu},
{"x86srli.b",0x00542004u,0xffffe01fu},
{"x86srai.b",0x00542008u,0xffffe01fu},
{"x86rotri.b",0x0054200cu,0xffffe01fu},
{"x86rcri.b",0x00542010u,0xffffe01fu},
{"x86rotli.b",0x00542014u,0xffffe01fu},
{"x86rcli.b",0x00542018u,0xffffe01fu},
{"movfr2cf",0x0114d000u,0xfffffc18u},
{"movcf2fr",0x0114d400u,0xffffff00u},
{"movgr2cf",0x0114d800u,0xfffffc18u},
{"movcf2gr",0x0114dc00u,0xffffff00u},
{"vseteqz.v",0x729c9800u,0xfffffc18u},
{"vsetnez.v",0x729c9c00u,0xfffffc18u},
{"vsetanyeqz.b",0x729ca000u,0xfffffc18u},
{"vsetanyeqz.h",0x729ca400u,0xfffffc18u},
{"vsetanyeqz.w",0x729ca800u,0xfffffc18u},
{"vsetanyeqz.d",0x729cac00u,0xfffffc18u},
{"vsetallnez.b",0x729cb000u,0xfffffc18u},
{"vsetallnez.h",0x729cb400u,0xfffffc18u},
{"vsetallnez.w",0x729cb800u,0xfffffc18u},
{"vsetallnez.d",0x729cbc00u,0xfffffc18u},
{"xvseteqz.v",0x769c9800u,0xfffffc18u},
{"xvsetnez.v",0x769c9c00u,0xfffffc18u},
{"xvsetanyeqz.b",0x769ca000u,0xfffffc18u},
{"xvsetanyeqz.h",0x769ca400u,0xfffffc18u},
{"xvsetanyeqz.w",0x769ca800u,0xfffffc18u},
{"xvsetanyeqz.d",0x769cac00u,0xfffffc18u},
{"xvsetallnez.b",0x769cb000u,0xfffffc18u},
{"xvsetallnez.h",0x769cb400u,0xfffffc18u},
{"xvsetallnez.w",0x769cb800u,0xfffffc18u},
{"xvsetallnez.d",0x769cbc00u,0xfffffc18u},
{"setx86j",0x00368000u,0xffffc3e0u},
{"setarmj",0x0036c000u,0xffffc3e0u},
{"armnot.w",0x003fc01cu,0xffffc01fu},
{"armmov.w",0x003fc01du,0xffffc01fu},
{"armmov.d",0x003fc01eu,0xffffc01fu},
{"armrrx.w",0x003fc01fu,0xffffc01fu},
{"x86slli.h",0x00544001u,0xffffc01fu},
{"x86srli.h",0x00544005u,0xffffc01fu},
{"x86srai.h",0x00544009u,0xffffc01fu},
{"x86rotri.h",0x0054400du,0xffffc01fu},
{"x86rcri.h",0x00544011u,0xffffc01fu},
{"x86rotli.h",0x00544015u,0xffffc01fu},
{"x86rcli.h",0x00544019u,0xffffc01fu},
{"clo.w",0x00001000u,0xfffffc00u},
{"clz.w",0x00001400u,0xfffffc00u},
{"cto.w",0x00001800u,0xfffffc00u},
{"ctz.w",0x00001c00u,0xfffffc00u},
{"clo.d",0x00002000u,0xfffffc00u},
{"clz.d",0x00002400u,0xfffffc00u},
{"cto.d",0x00002800u,0xfffffc00u},
{"ctz.d",0x00002c00u,0xfffffc00u},
{"revb.2h",0x00003000u,0xfffffc00u},
{"revb.4h",0x00003400u,0xfffffc00u},
{"revb.2w",0x00003800u,0xfffffc00u},
{"revb.d",0x00003c00u,0xfffffc00u},
{"revh.2w",0x00004000u,0xfffffc00u},
{"revh.d",0x00004400u,0xfffffc00u},
{"bitrev.4b",0x00004800u,0xfffffc00u},
{"bitrev.8b",0x00004c00u,0xfffffc00u},
{"bitrev.w",0x00005000u,0xfffffc00u},
{"bitrev.d",0x00005400u,0xfffffc00u},
{"ext.w.h",0x00005800u,0xfffffc00u},
{"ext.w.b",0x00005c00u,0xfffffc00u},
{"rdtimel.w",0x00006000u,0xfffffc00u},
{"rdtimeh.w",0x00006400u,0xfffffc00u},
{"rdtime.d",0x00006800u,0xfffffc00u},
{"cpucfg",0x00006c00u,0xfffffc00u},
{"setx86loope",0x00007800u,0xfffffc00u},
{"setx86loopne",0x00007c00u,0xfffffc00u},
{"asrtle.d",0x00010000u,0xffff801fu},
{"asrtgt.d",0x00018000u,0xffff801fu},
{"x86mul.b",0x003e8000u,0xffff801fu},
{"x86mul.h",0x003e8001u,0xffff801fu},
{"x86mul.w",0x003e8002u,0xffff801fu},
{"x86mul.d",0x003e8003u,0xffff801fu},
{"x86mul.bu",0x003e8004u,0xffff801fu},
{"x86mul.hu",0x003e8005u,0xffff801fu},
{"x86mul.wu",0x003e8006u,0xffff801fu},
{"x86mul.du",0x003e8007u,0xffff801fu},
{"x86add.wu",0x003f0000u,0xffff801fu},
{"x86add.du",0x003f0001u,0xffff801fu},
{"x86sub.wu",0x003f0002u,0xffff801fu},
{"x86sub.du",0x003f0003u,0xffff801fu},
{"x86add.b",0x003f0004u,0xffff801fu},
{"x86add.h",0x003f0005u,0xffff801fu},
{"x86add.w",0x003f0006u,0xffff801fu},
{"x86add.d",0x003f0007u,0xffff801fu},
{"x86sub.b",0x003f0008u,0xffff801fu},
{"x86sub.h",0x003f0009u,0xffff801fu},
{"x86sub.w",0x003f000au,0xffff801fu},
{"x86sub.d",0x003f000bu,0xffff801fu},
{"x86adc.b",0x003f000cu,0xffff801fu},
{"x86adc.h",0x003f000du,0xffff801fu},
{"x86adc.w",0x003f000eu,0xffff801fu},
{"x86adc.d",0x003f000fu,0xffff801fu},
{"x86sbc.b",0x003f0010u,0xffff801fu},
{"x86sbc.h",0x003f0011u,0xffff801fu},
{"x86sbc.w",0x003f0012u,0xffff801fu},
{"x86sbc.d",0x003f0013u,0xffff801fu},
{"x86sll.b",0x003f0014u,0xffff801fu},
{"x86sll.h",0x003f0015u,0xffff801fu},
{"x86sll.w",0x003f0016u,0xffff801fu},
{"x86sll.d",0x003f0017u,0xffff801fu},
{"x86srl.b",0x003f0018u,0xffff801fu},
{"x86srl.h",0x003f0019u,0xffff801fu},
{"x86srl.w",0x003f001au,0xffff801fu},
{"x86srl.d",0x003f001bu,0xffff801fu},
{"x86sra.b",0x003f001cu,0xffff801fu},
{"x86sra.h",0x003f001du,0xffff801fu},
{"x86sra.w",0x003f001eu,0xffff801fu},
{"x86sra.d",0x003f001fu,0xffff801fu},
{"x86rotr.b",0x003f8000u,0xffff801fu},
{"x86rotr.h",0x003f8001u,0xffff801fu},
{"x86rotr.d",0x003f8002u,0xffff801fu},
{"x86rotr.w",0x003f8003u,0xffff801fu},
{"x86rotl.b",0x003f8004u,0xffff801fu},
{"x86rotl.h",0x003f8005u,0xffff801fu},
{"x86rotl.w",0x003f8006u,0xffff801fu},
{"x86rotl.d",0x003f8007u,0xffff801fu},
{"x86rcr.b",0x003f8008u,0xffff801fu},
{"x86rcr.h",0x003f8009u,0xffff801fu},
{"x86rcr.w",0x003f800au,0xffff801fu},
{"x86rcr.d",0x003f800bu,0xffff801fu},
{"x86rcl.b",0x003f800cu,0xffff801fu},
{"x86rcl.h",0x003f800du,0xffff801fu},
{"x86rcl.w",0x003f800eu,0xffff801fu},
{"x86rcl.d",0x003f800fu,0xffff801fu},
{"x86and.b",0x003f8010u,0xffff801fu},
{"x86and.h",0x003f8011u,0xffff801fu},
{"x86and.w",0x003f8012u,0xffff801fu},
{"x86and.d",0x003f8013u,0xffff801fu},
{"x86or.b",0x003f8014u,0xffff801fu},
{"x86or.h",0x003f8015u,0xffff801fu},
{"x86or.w",0x003f8016u,0xffff801fu},
{"x86or.d",0x003f8017u,0xffff801fu},
{"x86xor.b",0x003f8018u,0xffff801fu},
{"x86xor.h",0x003f8019u,0xffff801fu},
{"x86xor.w",0x003f801au,0xffff801fu},
{"x86xor.d",0x003f801bu,0xffff801fu},
{"x86slli.w",0x00548002u,0xffff801fu},
{"x86srli.w",0x00548006u,0xffff801fu},
{"x86srai.w",0x0054800au,0xffff801fu},
{"x86rotri.w",0x0054800eu,0xffff801fu},
{"x86rcri.w",0x00548012u,0xffff801fu},
{"x86rotli.w",0x00548016u,0xffff801fu},
{"x86rcli.w",0x0054801au,0xffff801fu},
{"fabs.s",0x01140400u,0xfffffc00u},
{"fabs.d",0x01140800u,0xfffffc00u},
{"fneg.s",0x01141400u,0xfffffc00u},
{"fneg.d",0x01141800u,0xfffffc00u},
{"flogb.s",0x01142400u,0xfffffc00u},
{"flogb.d",0x01142800u,0xfffffc00u},
{"fclass.s",0x01143400u,0xfffffc00u},
{"fclass.d",0x01143800u,0xfffffc00u},
{"fsqrt.s",0x01144400u,0xfffffc00u},
{"fsqrt.d",0x01144800u,0xfffffc00u},
{"frecip.s",0x01145400u,0xfffffc00u},
{"frecip.d",0x01145800u,0xfffffc00u},
{"frsqrt.s",0x01146400u,0xfffffc00u},
{"frsqrt.d",0x01146800u,0xfffffc00u},
{"frecipe.s",0x01147400u,0xfffffc00u},
{"frecipe.d",0x01147800u,0xfffffc00u},
{"frsqrte.s",0x01148400u,0xfffffc00u},
{"frsqrte.d",0x01148800u,0xfffffc00u},
{"fmov.s",0x01149400u,0xfffffc00u},
{"fmov.d",0x01149800u,0xfffffc00u},
{"movgr2fr.w",0x0114a400u,0xfffffc00u},
{"movgr2fr.d",0x0114a800u,0xfffffc00u},
{"movgr2frh.w",0x0114ac00u,0xfffffc00u},
{"movfr2gr.s",0x0114b400u,0xfffffc00u},
{"movfr2gr.d",0x0114b800u,0xfffffc00u},
{"movfrh2gr.s",0x0114bc00u,0xfffffc00u},
{"fcvt.ld.d",0x0114e000u,0xfffffc00u},
{"fcvt.ud.d",0x0114e400u,0xfffffc00u},
{"fcvt.s.d",0x01191800u,0xfffffc00u},
{"fcvt.d.s",0x01192400u,0xfffffc00u},
{"ftintrm.w.s",0x011a0400u,0xfffffc00u},
{"ftintrm.w.d",0x011a0800u,0xfffffc00u},
{"ftintrm.l.s",0x011a2400u,0xfffffc00u},
{"ftintrm.l.d",0x011a2800u,0xfffffc00u},
{"ftintrp.w.s",0x011a4400u,0xfffffc00u},
{"ftintrp.w.d",0x011a4800u,0xfffffc00u},
{"ftintrp.l.s",0x011a6400u,0xfffffc00u},
{"ftintrp.l.d",0x011a6800u,0xfffffc00u},
{"ftintrz.w.s",0x011a8400u,0xfffffc00u},
{"ftintrz.w.d",0x011a8800u,0xfffffc00u},
{"ftintrz.l.s",0x011aa400u,0xfffffc00u},
{"ftintrz.l.d",0x011aa800u,0xfffffc00u},
{"ftintrne.w.s",0x011ac400u,0xfffffc00u},
{"ftintrne.w.d",0x011ac800u,0xfffffc00u},
{"ftintrne.l.s",0x011ae400u,0xfffffc00u},
{"ftintrne.l.d",0x011ae800u,0xfffffc00u},
{"ftint.w.s",0x011b0400u,0xfffffc00u},
{"ftint.w.d",0x011b0800u,0xfffffc00u},
{"ftint.l.s",0x011b2400u,0xfffffc00u},
{"ftint.l.d",0x011b2800u,0xfffffc00u},
{"ffint.s.w",0x011d1000u,0xfffffc00u},
{"ffint.s.l",0x011d1800u,0xfffffc00u},
{"ffint.d.w",0x011d2000u,0xfffffc00u},
{"ffint.d.l",0x011d2800u,0xfffffc00u},
{"frint.s",0x011e4400u,0xfffffc00u},
{"frint.d",0x011e4800u,0xfffffc00u},
{"iocsrrd.b",0x06480000u,0xfffffc00u},
{"iocsrrd.h",0x06480400u,0xfffffc00u},
{"iocsrrd.w",0x06480800u,0xfffffc00u},
{"iocsrrd.d",0x06480c00u,0xfffffc00u},
{"iocsrwr.b",0x06481000u,0xfffffc00u},
{"iocsrwr.h",0x06481400u,0xfffffc00u},
{"iocsrwr.w",0x06481800u,0xfffffc00u},
{"iocsrwr.d",0x06481c00u,0xfffffc00u},
{"llacq.w",0x38578000u,0xfffffc00u},
{"screl.w",0x38578400u,0xfffffc00u},
{"llacq.d",0x38578800u,0xfffffc00u},
{"screl.d",0x38578c00u,0xfffffc00u},
{"vclo.b",0x729c0000u,0xfffffc00u},
{"vclo.h",0x729c0400u,0xfffffc00u},
{"vclo.w",0x729c0800u,0xfffffc00u},
{"vclo.d",0x729c0c00u,0xfffffc00u},
{"vclz.b",0x729c1000u,0xfffffc00u},
{"vclz.h",0x729c1400u,0xfffffc00u},
{"vclz.w",0x729c1800u,0xfffffc00u},
{"vclz.d",0x729c1c00u,0xfffffc00u},
{"vpcnt.b",0x729c2000u,0xfffffc00u},
{"vpcnt.h",0x729c2400u,0xfffffc00u},
{"vpcnt.w",0x729c2800u,0xfffffc00u},
{"vpcnt.d",0x729c2c00u,0xfffffc00u},
{"vneg.b",0x729c3000u,0xfffffc00u},
{"vneg.h",0x729c3400u,0xfffffc00u},
{"vneg.w",0x729c3800u,0xfffffc00u},
{"vneg.d",0x729c3c00u,0xfffffc00u},
{"vmskltz.b",0x729c4000u,0xfffffc00u},
{"vmskltz.h",0x729c4400u,0xfffffc00u},
{"vmskltz.w",0x729c4800u,0xfffffc00u},
{"vmskltz.d",0x729c4c00u,0xfffffc00u},
{"vmskgez.b",0x729c5000u,0xfffffc00u},
{"vmsknz.b",0x729c6000u,0xfffffc00u},
{"vflogb.s",0x729cc400u,0xfffffc00u},
{"vflogb.d",0x729cc800u,0xfffffc00u},
{"vfclass.s",0x729cd400u,0xfffffc00u},
{"vfclass.d",0x729cd800u,0xfffffc00u},
{"vfsqrt.s",0x729ce400u,0xfffffc00u},
{"vfsqrt.d",0x729ce800u,0xfffffc00u},
{"vfrecip.s",0x729cf400u,0xfffffc00u},
{"vfrecip.d",0x729cf800u,0xfffffc00u},
{"vfrsqrt.s",0x729d0400u,0xfffffc00u},
{"vfrsqrt.d",0x729d0800u,0xfffffc00u},
{"vfrecipe.s",0x729d1400u,0xfffffc00u},
{"vfrecipe.d",0x729d1800u,0xfffffc00u},
{"vfrsqrte.s",0x729d2400u,0xfffffc00u},
{"vfrsqrte.d",0x729d2800u,0xfffffc00u},
{"vfrint.s",0x729d3400u,0xfffffc00u},
{"vfrint.d",0x729d3800u,0xfffffc00u},
{"vfrintrm.s",0x729d4400u,0xfffffc00u},
{"vfrintrm.d",0x729d4800u,0xfffffc00u},
{"vfrintrp.s",0x729d5400u,0xfffffc00u},
{"vfrintrp.d",0x729d5800u,0xfffffc00u},
{"vfrintrz.s",0x729d6400u,0xfffffc00u},
{"vfrintrz.d",0x729d6800u,0xfffffc00u},
{"vfrintrne.s",0x729d7400u,0xfffffc00u},
{"vfrintrne.d",0x729d7800u,0xfffffc00u},
{"vfcvtl.s.h",0x729de800u,0xfffffc00u},
{"vfcvth.s.h",0x729dec00u,0xfffffc00u},
{"vfcvtl.d.s",0x729df000u,0xfffffc00u},
{"vfcvth.d.s",0x729df400u,0xfffffc00u},
{"vffint.s.w",0x729e0000u,0xfffffc00u},
{"vffint.s.wu",0x729e0400u,0xfffffc00u},
{"vffint.d.l",0x729e0800u,0xfffffc00u},
{"vffint.d.lu",0x729e0c00u,0xfffffc00u},
{"vffintl.d.w",0x729e1000u,0xfffffc00u},
{"vffinth.d.w",0x729e1400u,0xfffffc00u},
{"vftint.w.s",0x729e3000u,0xfffffc00u},
{"vftint.l.d",0x729e3400u,0xfffffc00u},
{"vftintrm.w.s",0x729e3800u,0xfffffc00u},
{"vftintrm.l.d",0x729e3c00u,0xfffffc00u},
{"vftintrp.w.s",0x729e4000u,0xfffffc00u},
{"vftintrp.l.d",0x729e4400u,0xfffffc00u},
{"vftintrz.w.s",0x729e4800u,0xfffffc00u},
{"vftintrz.l.d",0x729e4c00u,0xfffffc00u},
{"vftintrne.w.s",0x729e5000u,0xfffffc00u},
{"vftintrne.l.d",0x729e5400u,0xfffffc00u},
{"vftint.wu.s",0x729e5800u,0xfffffc00u},
{"vftint.lu.d",0x729e5c00u,0xfffffc00u},
{"vftintrz.wu.s",0x729e7000u,0xfffffc00u},
{"vftintrz.lu.d",0x729e7400u,0xfffffc00u},
{"vftintl.l.s",0x729e8000u,0xfffffc00u},
{"vftinth.l.s",0x729e8400u,0xfffffc00u},
{"vftintrml.l.s",0x729e8800u,0xfffffc00u},
{"vftintrmh.l.s",0x729e8c00u,0xfffffc00u},
{"vftintrpl.l.s",0x729e9000u,0xfffffc00u},
{"vftintrph.l.s",0x729e9400u,0xfffffc00u},
{"vftintrzl.l.s",0x729e9800u,0xfffffc00u},
{"vftintrzh.l.s",0x729e9c00u,0xfffffc00u},
{"vftintrnel.l.s",0x729ea000u,0xfffffc00u},
{"vftintrneh.l.s",0x729ea400u,0xfffffc00u},
{"vexth.h.b",0x729ee000u,0xfffffc00u},
{"vexth.w.h",0x729ee400u,0xfffffc00u},
{"vexth.d.w",0x729ee800u,0xfffffc00u},
{"vexth.q.d",0x729eec00u,0xfffffc00u},
{"vexth.hu.bu",0x729ef000u,0xfffffc00u},
{"vexth.wu.hu",0x729ef400u,0xfffffc00u},
{"vexth.du.wu",0x729ef800u,0xfffffc00u},
{"vexth.qu.du",0x729efc00u,0xfffffc00u},
{"vreplgr2vr.b",0x729f0000u,0xfffffc00u},
{"vreplgr2vr.h",0x729f0400u,0xfffffc00u},
{"vreplgr2vr.w",0x729f0800u,0xfffffc00u},
{"vreplgr2vr.d",0x729f0c00u,0xfffffc00u},
{"vextl.q.d",0x73090000u,0xfffffc00u},
{"vextl.qu.du",0x730d0000u,0xfffffc00u},
{"xvclo.b",0x769c0000u,0xfffffc00u},
{"xvclo.h",0x769c0400u,0xfffffc00u},
{"xvclo.w",0x769c0800u,0xfffffc00u},
{"xvclo.d",0x769c0c00u,0xfffffc00u},
{"xvclz.b",0x769c1000u,0xfffffc00u},
{"xvclz.h",0x769c1400u,0xfffffc00u},
{"xvclz.w",0x769c1800u,0xfffffc00u},
{"xvclz.d",0x769c1c00u,0xfffffc00u},
{"xvpcnt.b",0x769c2000u,0xfffffc00u},
{"xvpcnt.h",0x769c2400u,0xfffffc00u},
{"xvpcnt.w",0x769c2800u,0xfffffc00u},
{"xvpcnt.d",0x769c2c00u,0xfffffc00u},
{"xvneg.b",0x769c3000u,0xfffffc00u},
{"xvneg.h",0x769c3400u,0xfffffc00u},
{"xvneg.w",0x769c3800u,0xfffffc00u},
{"xvneg.d",0x769c3c00u,0xfffffc00u},
{"xvmskltz.b",0x769c4000u,0xfffffc00u},
{"xvmskltz.h",0x769c4400u,0xfffffc00u},
{"xvmskltz.w",0x769c4800u,0xfffffc00u},
{"xvmskltz.d",0x769c4c00u,0xfffffc00u},
{"xvmskgez.b",0x769c5000u,0xfffffc00u},
{"xvmsknz.b",0x769c6000u,0xfffffc00u},
{"xvflogb.s",0x769cc400u,0xfffffc00u},
{"xvflogb.d",0x769cc800u,0xfffffc00u},
{"xvfclass.s",0x769cd400u,0xfffffc00u},
{"xvfclass.d",0x769cd800u,0xfffffc00u},
{"xvfsqrt.s",0x769ce400u,0xfffffc00u},
{"xvfsqrt.d",0x769ce800u,0xfffffc00u},
{"xvfrecip.s",0x769cf400u,0xfffffc00u},
{"xvfrecip.d",0x769cf800u,0xfffffc00u},
{"xvfrsqrt.s",0x769d0400u,0xfffffc00u},
{"xvfrsqrt.d",0x769d0800u,0xfffffc00u},
{"xvfrecipe.s",0x769d1400u,0xfffffc00u},
{"xvfrecipe.d",0x769d1800u,0xfffffc00u},
{"xvfrsqrte.s",0x769d2400u,0xfffffc00u},
{"xvfrsqrte.d",0x769d2800u,0xfffffc00u},
{"xvfrint.s",0x769d3400u,0xfffffc00u},
{"xvfrint.d",0x769d3800u,0xfffffc00u},
{"xvfrintrm.s",0x769d4400u,0xfffffc00u},
{"xvfrintrm.d",0x769d4800u,0xfffffc00u},
{"xvfrintrp.s",0x769d5400u,0xfffffc00u},
{"xvfrintrp.d",0x769d5800u,0xfffffc00u},
{"xvfrintrz.s",0x769d6400u,0xfffffc00u},
{"xvfrintrz.d",0x769d6800u,0xfffffc00u},
{"xvfrintrne.s",0x769d7400u,0xfffffc00u},
{"xvfrintrne.d",0x769d7800u,0xfffffc00u},
{"xvfcvtl.s.h",0x769de800u,0xfffffc00u},
{"xvfcvth.s.h",0x769dec00u,0xfffffc00u},
{"xvfcvtl.d.s",0x769df000u,0xfffffc00u},
{"xvfcvth.d.s",0x769df400u,0xfffffc00u},
{"xvffint.s.w",0x769e0000u,0xfffffc00u},
{"xvffint.s.wu",0x769e0400u,0xfffffc00u},
{"xvffint.d.l",0x769e0800u,0xfffffc00u},
{"xvffint.d.lu",0x769e0c00u,0xfffffc00u},
{"xvffintl.d.w",0x769e1000u,0xfffffc00u},
{"xvffinth.d.w",0x769e1400u,0xfffffc00u},
{"xvftint.w.s",0x769e3000u,0xfffffc00u},
{"xvftint.l.d",0x769e3400u,0xfffffc00u},
{"xvftintrm.w.s",0x769e3800u,0xfffffc00u},
{"xvftintrm.l.d",0x769e3c00u,0xfffffc00u},
{"xvftintrp.w.s",0x769e4000u,0xfffffc00u},
{"xvftintrp.l.d",0x769e4400u,0xfffffc00u},
{"xvftintrz.w.s",0x769e4800u,0xfffffc00u},
{"xvftintrz.l.d",0x769e4c00u,0xfffffc00u},
{"xvftintrne.w.s",0x769e5000u,0xfffffc00u},
{"xvftintrne.l.d",0x769e5400u,0xfffffc00u},
{"xvftint.wu.s",0x769e5800u,0xfffffc00u},
{"xvftint.lu.d",0x769e5c00u,0xfffffc00u},
{"xvftintrz.wu.s",0x769e7000u,0xfffffc00u},
{"xvftintrz.lu.d",0x769e7400u,0xfffffc00u},
{"xvftintl.l.s",0x769e8000u,0xfffffc00u},
{"xvftinth.l.s",0x769e8400u,0xfffffc00u},
{"xvftintrml.l.s",0x769e8800u,0xfffffc00u},
{"xvftintrmh.l.s",0x769e8c00u,0xfffffc00u},
{"xvftintrpl.l.s",0x769e9000u,0xfffffc00u},
{"xvftintrph.l.s",0x769e9400u,0xfffffc00u},
{"xvftintrzl.l.s",0x769e9800u,0xfffffc00u},
{"xvftintrzh.l.s",0x769e9c00u,0xfffffc00u},
{"xvftintrnel.l.s",0x769ea000u,0xfffffc00u},
{"xvftintrneh.l.s",0x769ea400u,0xfffffc00u},
{"xvexth.h.b",0x769ee000u,0xfffffc00u},
{"xvexth.w.h",0x769ee400u,0xfffffc00u},
{"xvexth.d.w",0x769ee800u,0xfffffc00u},
{"xvexth.q.d",0x769eec00u,0xfffffc00u},
{"xvexth.hu.bu",0x769ef000u,0xfffffc00u},
{"xvexth.wu.hu",0x769ef400u,0xfffffc00u},
{"xvexth.du.wu",0x769ef800u,0xfffffc00u},
{"xvexth.qu.du",0x769efc00u,0xfffffc00u},
{"xvreplgr2vr.b",0x769f0000u,0xfffffc00u},
{"xvreplgr2vr.h",0x769f0400u,0xfffffc00u},
{"xvreplgr2vr.w",0x769f0800u,0xfffffc00u},
{"xvreplgr2vr.d",0x769f0c00u,0xfffffc00u},
{"vext2xv.h.b",0x769f1000u,0xfffffc00u},
{"vext2xv.w.b",0x769f1400u,0xfffffc00u},
{"vext2xv.d.b",0x769f1800u,0xfffffc00u},
{"vext2xv.w.h",0x769f1c00u,0xfffffc00u},
{"vext2xv.d.h",0x769f2000u,0xfffffc00u},
{"vext2xv.d.w",0x769f2400u,0xfffffc00u},
{"vext2xv.hu.bu",0x769f2800u,0xfffffc00u},
{"vext2xv.wu.bu",0x769f2c00u,0xfffffc00u},
{"vext2xv.du.bu",0x769f3000u,0xfffffc00u},
{"vext2xv.wu.hu",0x769f3400u,0xfffffc00u},
{"vext2xv.du.hu",0x769f3800u,0xfffffc00u},
{"vext2xv.du.wu",0x769f3c00u,0xfffffc00u},
{"xvreplve0.b",0x77070000u,0xfffffc00u},
{"xvreplve0.h",0x77078000u,0xfffffc00u},
{"xvreplve0.w",0x7707c000u,0xfffffc00u},
{"xvreplve0.d",0x7707e000u,0xfffffc00u},
{"xvreplve0.q",0x7707f000u,0xfffffc00u},
{"xvextl.q.d",0x77090000u,0xfffffc00u},
{"xvextl.qu.du",0x770d0000u,0xfffffc00u},
{"x86slli.d",0x00550003u,0xffff001fu},
{"x86srli.d",0x00550007u,0xffff001fu},
{"x86srai.d",0x0055000bu,0xffff001fu},
{"x86rotri.d",0x0055000fu,0xffff001fu},
{"x86rcri.d",0x00550013u,0xffff001fu},
{"x86rotli.d",0x00550017u,0xffff001fu},
{"x86rcli.d",0x0055001bu,0xffff001fu},
{"vinsgr2vr.d",0x72ebf000u,0xfffff800u},
{"vpickve2gr.d",0x72eff000u,0xfffff800u},
{"vpickve2gr.du",0x72f3f000u,0xfffff800u},
{"vreplvei.d",0x72f7f000u,0xfffff800u},
{"xvrepl128vei.d",0x76f7f000u,0xfffff800u},
{"vinsgr2vr.w",0x72ebe000u,0xfffff000u},
{"vpickve2gr.w",0x72efe000u,0xfffff000u},
{"vpickve2gr.wu",0x72f3e000u,0xfffff000u},
{"vreplvei.w",0x72f7e000u,0xfffff000u},
{"xvinsgr2vr.d",0x76ebe000u,0xfffff000u},
{"xvpickve2gr.d",0x76efe000u,0xfffff000u},
{"xvpickve2gr.du",0x76f3e000u,0xfffff000u},
{"xvrepl128vei.w",0x76f7e000u,0xfffff000u},
{"xvinsve0.d",0x76ffe000u,0xfffff000u},
{"xvpickve.d",0x7703e000u,0xfffff000u},
{"rotri.b",0x004c2000u,0xffffe000u},
{"rcri.b",0x00502000u,0xffffe000u},
{"x86mfflag",0x005c0000u,0xfffc03e0u},
{"x86mtflag",0x005c0020u,0xfffc03e0u},
{"armmfflag",0x005c0040u,0xfffc03e0u},
{"armmtflag",0x005c0060u,0xfffc03e0u},
{"ldpte",0x06440000u,0xfffc001fu},
{"fcmp.caf.s",0x0c100000u,0xffff8018u},
{"fcmp.saf.s",0x0c108000u,0xffff8018u},
{"fcmp.clt.s",0x0c110000u,0xffff8018u},
{"fcmp.slt.s",0x0c118000u,0xffff8018u},
{"fcmp.ceq.s",0x0c120000u,0xffff8018u},
{"fcmp.seq.s",0x0c128000u,0xffff8018u},
{"fcmp.cle.s",0x0c130000u,0xffff8018u},
{"fcmp.sle.s",0x0c138000u,0xffff8018u},
{"fcmp.cun.s",0x0c140000u,0xffff8018u},
{"fcmp.sun.s",0x0c148000u,0xffff8018u},
{"fcmp.cult.s",0x0c150000u,0xffff8018u},
{"fcmp.sult.s",0x0c158000u,0xffff8018u},
{"fcmp.cueq.s",0x0c160000u,0xffff8018u},
{"fcmp.sueq.s",0x0c168000u,0xffff8018u},
{"fcmp.cule.s",0x0c170000u,0xffff8018u},
{"fcmp.sule.s",0x0c178000u,0xffff8018u},
{"fcmp.cne.s",0x0c180000u,0xffff8018u},
{"fcmp.sne.s",0x0c188000u,0xffff8018u},
{"fcmp.cor.s",0x0c1a0000u,0xffff8018u},
{"fcmp.sor.s",0x0c1a8000u,0xffff8018u},
{"fcmp.cune.s",0x0c1c0000u,0xffff8018u},
{"fcmp.sune.s",0x0c1c8000u,0xffff8018u},
{"fcmp.caf.d",0x0c200000u,0xffff8018u},
{"fcmp.saf.d",0x0c208000u,0xffff8018u},
{"fcmp.clt.d",0x0c210000u,0xffff8018u},
{"fcmp.slt.d",0x0c218000u,0xffff8018u},
{"fcmp.ceq.d",0x0c220000u,0xffff8018u},
{"fcmp.seq.d",0x0c228000u,0xffff8018u},
{"fcmp.cle.d",0x0c230000u,0xffff8018u},
{"fcmp.sle.d",0x0c238000u,0xffff8018u},
{"fcmp.cun.d",0x0c240000u,0xffff8018u},
{"fcmp.sun.d",0x0c248000u,0xffff8018u},
{"fcmp.cult.d",0x0c250000u,0xffff8018u},
{"fcmp.sult.d",0x0c258000u,0xffff8018u},
{"fcmp.cueq.d",0x0c260000u,0xffff8018u},
{"fcmp.sueq.d",0x0c268000u,0xffff8018u},
{"fcmp.cule.d",0x0c270000u,0xffff8018u},
{"fcmp.sule.d",0x0c278000u,0xffff8018u},
{"fcmp.cne.d",0x0c280000u,0xffff8018u},
{"fcmp.sne.d",0x0c288000u,0xffff8018u},
{"fcmp.cor.d",0x0c2a0000u,0xffff8018u},
{"fcmp.sor.d",0x0c2a8000u,0xffff8018u},
{"fcmp.cune.d",0x0c2c0000u,0xffff8018u},
{"fcmp.sune.d",0x0c2c8000u,0xffff8018u},
{"vrotri.b",0x72a02000u,0xffffe000u},
{"vsrlri.b",0x72a42000u,0xffffe000u},
{"vsrari.b",0x72a82000u,0xffffe000u},
{"vinsgr2vr.h",0x72ebc000u,0xffffe000u},
{"vpickve2gr.h",0x72efc000u,0xffffe000u},
{"vpickve2gr.hu",0x72f3c000u,0xffffe000u},
{"vreplvei.h",0x72f7c000u,0xffffe000u},
{"vsllwil.h.b",0x73082000u,0xffffe000u},
{"vsllwil.hu.bu",0x730c2000u,0xffffe000u},
{"vbitclri.b",0x73102000u,0xffffe000u},
{"vbitseti.b",0x73142000u,0xffffe000u},
{"vbitrevi.b",0x73182000u,0xffffe000u},
{"vsat.b",0x73242000u,0xffffe000u},
{"vsat.bu",0x73282000u,0xffffe000u},
{"vslli.b",0x732c2000u,0xffffe000u},
{"vsrli.b",0x73302000u,0xffffe000u},
{"vsrai.b",0x73342000u,0xffffe000u},
{"xvrotri.b",0x76a02000u,0xffffe000u},
{"xvsrlri.b",0x76a42000u,0xffffe000u},
{"xvsrari.b",0x76a82000u,0xffffe000u},
{"xvinsgr2vr.w",0x76ebc000u,0xffffe000u},
{"xvpickve2gr.w",0x76efc000u,0xffffe000u},
{"xvpickve2gr.wu",0x76f3c000u,0xffffe000u},
{"xvrepl128vei.h",0x76f7c000u,0xffffe000u},
{"xvinsve0.w",0x76ffc000u,0xffffe000u},
{"xvpickve.w",0x7703c000u,0xffffe000u},
{"xvsllwil.h.b",0x77082000u,0xffffe000u},
{"xvsllwil.hu.bu",0x770c2000u,0xffffe000u},
{"xvbitclri.b",0x77102000u,0xffffe000u},
{"xvbitseti.b",0x77142000u,0xffffe000u},
{"xvbitrevi.b",0x77182000u,0xffffe000u},
{"xvsat.b",0x77242000u,0xffffe000u},
{"xvsat.bu",0x77282000u,0xffffe000u},
{"xvslli.b",0x772c2000u,0xffffe000u},
{"xvsrli.b",0x77302000u,0xffffe000u},
{"xvsrai.b",0x77342000u,0xffffe000u},
{"armmove",0x00364000u,0xffffc000u},
{"armadd.w",0x00370010u,0xffff8010u},
{"armsub.w",0x00378010u,0xffff8010u},
{"armadc.w",0x00380010u,0xffff8010u},
{"armsbc.w",0x00388010u,0xffff8010u},
{"armand.w",0x00390010u,0xffff8010u},
{"armor.w",0x00398010u,0xffff8010u},
{"armxor.w",0x003a0010u,0xffff8010u},
{"armsll.w",0x003a8010u,0xffff8010u},
{"armsrl.w",0x003b0010u,0xffff8010u},
{"armsra.w",0x003b8010u,0xffff8010u},
{"armrotr.w",0x003c0010u,0xffff8010u},
{"armslli.w",0x003c8010u,0xffff8010u},
{"armsrli.w",0x003d0010u,0xffff8010u},
{"armsrai.w",0x003d8010u,0xffff8010u},
{"armrotri.w",0x003e0010u,0xffff8010u},
{"rotri.h",0x004c4000u,0xffffc000u},
{"rcri.h",0x00504000u,0xffffc000u},
{"vrotri.h",0x72a04000u,0xffffc000u},
{"vsrlri.h",0x72a44000u,0xffffc000u},
{"vsrari.h",0x72a84000u,0xffffc000u},
{"vinsgr2vr.b",0x72eb8000u,0xffffc000u},
{"vpickve2gr.b",0x72ef8000u,0xffffc000u},
{"vpickve2gr.bu",0x72f38000u,0xffffc000u},
{"vreplvei.b",0x72f78000u,0xffffc000u},
{"vsllwil.w.h",0x73084000u,0xffffc000u},
{"vsllwil.wu.hu",0x730c4000u,0xffffc000u},
{"vbitclri.h",0x73104000u,0xffffc000u},
{"vbitseti.h",0x73144000u,0xffffc000u},
{"vbitrevi.h",0x73184000u,0xffffc000u},
{"vsat.h",0x73244000u,0xffffc000u},
{"vsat.hu",0x73284000u,0xffffc000u},
{"vslli.h",0x732c4000u,0xffffc000u},
{"vsrli.h",0x73304000u,0xffffc000u},
{"vsrai.h",0x73344000u,0xffffc000u},
{"vsrlni.b.h",0x73404000u,0xffffc000u},
{"vsrlrni.b.h",0x73444000u,0xffffc000u},
{"vssrlni.b.h",0x73484000u,0xffffc000u},
{"vssrlni.bu.h",0x734c4000u,0xffffc000u},
{"vssrlrni.b.h",0x73504000u,0xffffc000u},
{"vssrlrni.bu.h",0x73544000u,0xffffc000u},
{"vsrani.b.h",0x73584000u,0xffffc000u},
{"vsrarni.b.h",0x735c4000u,0xffffc000u},
{"vssrani.b.h",0x73604000u,0xffffc000u},
{"vssrani.bu.h",0x73644000u,0xffffc000u},
{"vssrarni.b.h",0x73684000u,0xffffc000u},
{"vssrarni.bu.h",0x736c4000u,0xffffc000u},
{"xvrotri.h",0x76a04000u,0xffffc000u},
{"xvsrlri.h",0x76a44000u,0xffffc000u},
{"xvsrari.h",0x76a84000u,0xffffc000u},
{"xvrepl128vei.b",0x76f78000u,0xffffc000u},
{"xvsllwil.w.h",0x77084000u,0xffffc000u},
{"xvsllwil.wu.hu",0x770c4000u,0xffffc000u},
{"xvbitclri.h",0x77104000u,0xffffc000u},
{"xvbitseti.h",0x77144000u,0xffffc000u},
{"xvbitrevi.h",0x77184000u,0xffffc000u},
{"xvsat.h",0x77244000u,0xffffc000u},
{"xvsat.hu",0x77284000u,0xffffc000u},
{"xvslli.h",0x772c4000u,0xffffc000u},
{"xvsrli.h",0x77304000u,0xffffc000u},
{"xvsrai.h",0x77344000u,0xffffc000u},
{"xvsrlni.b.h",0x77404000u,0xffffc000u},
{"xvsrlrni.b.h",0x77444000u,0xffffc000u},
{"xvssrlni.b.h",0x77484000u,0xffffc000u},
{"xvssrlni.bu.h",0x774c4000u,0xffffc000u},
{"xvssrlrni.b.h",0x77504000u,0xffffc000u},
{"xvssrlrni.bu.h",0x77544000u,0xffffc000u},
{"xvsrani.b.h",0x77584000u,0xffffc000u},
{"xvsrarni.b.h",0x775c4000u,0xffffc000u},
{"xvssrani.b.h",0x77604000u,0xffffc000u},
{"xvssrani.bu.h",0x77644000u,0xffffc000u},
{"xvssrarni.b.h",0x77684000u,0xffffc000u},
{"xvssrarni.bu.h",0x776c4000u,0xffffc000u},
{"add.w",0x00100000u,0xffff8000u},
{"add.d",0x00108000u,0xffff8000u},
{"sub.w",0x00110000u,0xffff8000u},
{"sub.d",0x00118000u,0xffff8000u},
{"slt",0x00120000u,0xffff8000u},
{"sltu",0x00128000u,0xffff8000u},
{"maskeqz",0x00130000u,0xffff8000u},
{"masknez",0x00138000u,0xffff8000u},
{"nor",0x00140000u,0xffff8000u},
{"and",0x00148000u,0xffff8000u},
{"or",0x00150000u,0xffff8000u},
{"xor",0x00158000u,0xffff8000u},
{"orn",0x00160000u,0xffff8000u},
{"andn",0x00168000u,0xffff8000u},
{"sll.w",0x00170000u,0xffff8000u},
{"srl.w",0x00178000u,0xffff8000u},
{"sra.w",0x00180000u,0xffff8000u},
{"sll.d",0x00188000u,0xffff8000u},
{"srl.d",0x00190000u,0xffff8000u},
{"sra.d",0x00198000u,0xffff8000u},
{"rotr.b",0x001a0000u,0xffff8000u},
{"rotr.h",0x001a8000u,0xffff8000u},
{"rotr.w",0x001b0000u,0xffff8000u},
{"rotr.d",0x001b8000u,0xffff8000u},
{"mul.w",0x001c0000u,0xffff8000u},
{"mulh.w",0x001c8000u,0xffff8000u},
{"mulh.wu",0x001d0000u,0xffff8000u},
{"mul.d",0x001d8000u,0xffff8000u},
{"mulh.d",0x001e0000u,0xffff8000u},
{"mulh.du",0x001e8000u,0xffff8000u},
{"mulw.d.w",0x001f0000u,0xffff8000u},
{"mulw.d.wu",0x001f8000u,0xffff8000u},
{"div.w",0x00200000u,0xffff8000u},
{"mod.w",0x00208000u,0xffff8000u},
{"div.wu",0x00210000u,0xffff8000u},
{"mod.wu",0x00218000u,0xffff8000u},
{"div.d",0x00220000u,0xffff8000u},
{"mod.d",0x00228000u,0xffff8000u},
{"div.du",0x00230000u,0xffff8000u},
{"mod.du",0x00238000u,0xffff8000u},
{"crc.w.b.w",0x00240000u,0xffff8000u},
{"crc.w.h.w",0x00248000u,0xffff8000u},
{"crc.w.w.w",0x00250000u,0xffff8000u},
{"crc.w.d.w",0x00258000u,0xffff8000u},
{"crcc.w.b.w",0x00260000u,0xffff8000u},
{"crcc.w.h.w",0x00268000u,0xffff8000u},
{"crcc.w.w.w",0x00270000u,0xffff8000u},
{"crcc.w.d.w",0x00278000u,0xffff8000u},
{"addu12i.w",0x00290000u,0xffff8000u},
{"addu12i.d",0x00298000u,0xffff8000u},
{"break",0x002a0000u,0xffff8000u},
{"dbcl",0x002a8000u,0xffff8000u},
{"syscall",0x002b0000u,0xffff8000u},
{"hvcl",0x002b8000u,0xffff8000u},
{"adc.b",0x00300000u,0xffff8000u},
{"adc.h",0x00308000u,0xffff8000u},
{"adc.w",0x00310000u,0xffff8000u},
{"adc.d",0x00318000u,0xffff8000u},
{"sbc.b",0x00320000u,0xffff8000u},
{"sbc.h",0x00328000u,0xffff8000u},
{"sbc.w",0x00330000u,0xffff8000u},
{"sbc.d",0x00338000u,0xffff8000u},
{"rcr.b",0x00340000u,0xffff8000u},
{"rcr.h",0x00348000u,0xffff8000u},
{"rcr.w",0x00350000u,0xffff8000u},
{"rcr.d",0x00358000u,0xffff8000u},
{"slli.w",0x00408000u,0xffff8000u},
{"srli.w",0x00448000u,0xffff8000u},
{"srai.w",0x00488000u,0xffff8000u},
{"rotri.w",0x004c8000u,0xffff8000u},
{"rcri.w",0x00508000u,0xffff8000u},
{"fadd.s",0x01008000u,0xffff8000u},
{"fadd.d",0x01010000u,0xffff8000u},
{"fsub.s",0x01028000u,0xffff8000u},
{"fsub.d",0x01030000u,0xffff8000u},
{"fmul.s",0x01048000u,0xffff8000u},
{"fmul.d",0x01050000u,0xffff8000u},
{"fdiv.s",0x01068000u,0xffff8000u},
{"fdiv.d",0x01070000u,0xffff8000u},
{"fmax.s",0x01088000u,0xffff8000u},
{"fmax.d",0x01090000u,0xffff8000u},
{"fmin.s",0x010a8000u,0xffff8000u},
{"fmin.d",0x010b0000u,0xffff8000u},
{"fmaxa.s",0x010c8000u,0xffff8000u},
{"fmaxa.d",0x010d0000u,0xffff8000u},
{"fmina.s",0x010e8000u,0xffff8000u},
{"fmina.d",0x010f0000u,0xffff8000u},
{"fscaleb.s",0x01108000u,0xffff8000u},
{"fscaleb.d",0x01110000u,0xffff8000u},
{"fcopysign.s",0x01128000u,0xffff8000u},
{"fcopysign.d",0x01130000u,0xffff8000u},
{"fcvt.d.ld",0x01150000u,0xffff8000u},
{"idle",0x06488000u,0xffff8000u},
{"invtlb",0x06498000u,0xffff8000u},
{"vfcmp.caf.s",0x0c500000u,0xffff8000u},
{"vfcmp.saf.s",0x0c508000u,0xffff8000u},
{"vfcmp.clt.s",0x0c510000u,0xffff8000u},
{"vfcmp.slt.s",0x0c518000u,0xffff8000u},
{"vfcmp.ceq.s",0x0c520000u,0xffff8000u},
{"vfcmp.seq.s",0x0c528000u,0xffff8000u},
{"vfcmp.cle.s",0x0c530000u,0xffff8000u},
{"vfcmp.sle.s",0x0c538000u,0xffff8000u},
{"vfcmp.cun.s",0x0c540000u,0xffff8000u},
{"vfcmp.sun.s",0x0c548000u,0xffff8000u},
{"vfcmp.cult.s",0x0c550000u,0xffff8000u},
{"vfcmp.sult.s",0x0c558000u,0xffff8000u},
{"vfcmp.cueq.s",0x0c560000u,0xffff8000u},
{"vfcmp.sueq.s",0x0c568000u,0xffff8000u},
{"vfcmp.cule.s",0x0c570000u,0xffff8000u},
{"vfcmp.sule.s",0x0c578000u,0xffff8000u},
{"vfcmp.cne.s",0x0c580000u,0xffff8000u},
{"vfcmp.sne.s",0x0c588000u,0xffff8000u},
{"vfcmp.cor.s",0x0c5a0000u,0xffff8000u},
{"vfcmp.sor.s",0x0c5a8000u,0xffff8000u},
{"vfcmp.cune.s",0x0c5c0000u,0xffff8000u},
{"vfcmp.sune.s",0x0c5c8000u,0xffff8000u},
{"vfcmp.caf.d",0x0c600000u,0xffff8000u},
{"vfcmp.saf.d",0x0c608000u,0xffff8000u},
{"vfcmp.clt.d",0x0c610000u,0xffff8000u},
{"vfcmp.slt.d",0x0c618000u,0xffff8000u},
{"vfcmp.ceq.d",0x0c620000u,0xffff8000u},
{"vfcmp.seq.d",0x0c628000u,0xffff8000u},
{"vfcmp.cle.d",0x0c630000u,0xffff8000u},
{"vfcmp.sle.d",0x0c638000u,0xffff8000u},
{"vfcmp.cun.d",0x0c640000u,0xffff8000u},
{"vfcmp.sun.d",0x0c648000u,0xffff8000u},
{"vfcmp.cult.d",0x0c650000u,0xffff8000u},
{"vfcmp.sult.d",0x0c658000u,0xffff8000u},
{"vfcmp.cueq.d",0x0c660000u,0xffff8000u},
{"vfcmp.sueq.d",0x0c668000u,0xffff8000u},
{"vfcmp.cule.d",0x0c670000u,0xffff8000u},
{"vfcmp.sule.d",0x0c678000u,0xffff8000u},
{"vfcmp.cne.d",0x0c680000u,0xffff8000u},
{"vfcmp.sne.d",0x0c688000u,0xffff8000u},
{"vfcmp.cor.d",0x0c6a0000u,0xffff8000u},
{"vfcmp.sor.d",0x0c6a8000u,0xffff8000u},
{"vfcmp.cune.d",0x0c6c0000u,0xffff8000u},
{"vfcmp.sune.d",0x0c6c8000u,0xffff8000u},
{"xvfcmp.caf.s",0x0c900000u,0xffff8000u},
{"xvfcmp.saf.s",0x0c908000u,0xffff8000u},
{"xvfcmp.clt.s",0x0c910000u,0xffff8000u},
{"xvfcmp.slt.s",0x0c918000u,0xffff8000u},
{"xvfcmp.ceq.s",0x0c920000u,0xffff8000u},
{"xvfcmp.seq.s",0x0c928000u,0xffff8000u},
{"xvfcmp.cle.s",0x0c930000u,0xffff8000u},
{"xvfcmp.sle.s",0x0c938000u,0xffff8000u},
{"xvfcmp.cun.s",0x0c940000u,0xffff8000u},
{"xvfcmp.sun.s",0x0c948000u,0xffff8000u},
{"xvfcmp.cult.s",0x0c950000u,0xffff8000u},
{"xvfcmp.sult.s",0x0c958000u,0xffff8000u},
{"xvfcmp.cueq.s",0x0c960000u,0xffff8000u},
{"xvfcmp.sueq.s",0x0c968000u,0xffff8000u},
{"xvfcmp.cule.s",0x0c970000u,0xffff8000u},
{"xvfcmp.sule.s",0x0c978000u,0xffff8000u},
{"xvfcmp.cne.s",0x0c980000u,0xffff8000u},
{"xvfcmp.sne.s",0x0c988000u,0xffff8000u},
{"xvfcmp.cor.s",0x0c9a0000u,0xffff8000u},
{"xvfcmp.sor.s",0x0c9a8000u,0xffff8000u},
{"xvfcmp.cune.s",0x0c9c0000u,0xffff8000u},
{"xvfcmp.sune.s",0x0c9c8000u,0xffff8000u},
{"xvfcmp.caf.d",0x0ca00000u,0xffff8000u},
{"xvfcmp.saf.d",0x0ca08000u,0xffff8000u},
{"xvfcmp.clt.d",0x0ca10000u,0xffff8000u},
{"xvfcmp.slt.d",0x0ca18000u,0xffff8000u},
{"xvfcmp.ceq.d",0x0ca20000u,0xffff8000u},
{"xvfcmp.seq.d",0x0ca28000u,0xffff8000u},
{"xvfcmp.cle.d",0x0ca30000u,0xffff8000u},
{"xvfcmp.sle.d",0x0ca38000u,0xffff8000u},
{"xvfcmp.cun.d",0x0ca40000u,0xffff8000u},
{"xvfcmp.sun.d",0x0ca48000u,0xffff8000u},
{"xvfcmp.cult.d",0x0ca50000u,0xffff8000u},
{"xvfcmp.sult.d",0x0ca58000u,0xffff8000u},
{"xvfcmp.cueq.d",0x0ca60000u,0xffff8000u},
{"xvfcmp.sueq.d",0x0ca68000u,0xffff8000u},
{"xvfcmp.cule.d",0x0ca70000u,0xffff8000u},
{"xvfcmp.sule.d",0x0ca78000u,0xffff8000u},
{"xvfcmp.cne.d",0x0ca80000u,0xffff8000u},
{"xvfcmp.sne.d",0x0ca88000u,0xffff8000u},
{"xvfcmp.cor.d",0x0caa0000u,0xffff8000u},
{"xvfcmp.sor.d",0x0caa8000u,0xffff8000u},
{"xvfcmp.cune.d",0x0cac0000u,0xffff8000u},
{"xvfcmp.sune.d",0x0cac8000u,0xffff8000u},
{"ldx.b",0x38000000u,0xffff8000u},
{"ldx.h",0x38040000u,0xffff8000u},
{"ldx.w",0x38080000u,0xffff8000u},
{"ldx.d",0x380c0000u,0xffff8000u},
{"stx.b",0x38100000u,0xffff8000u},
{"stx.h",0x38140000u,0xffff8000u},
{"stx.w",0x38180000u,0xffff8000u},
{"stx.d",0x381c0000u,0xffff8000u},
{"ldx.bu",0x38200000u,0xffff8000u},
{"ldx.hu",0x38240000u,0xffff8000u},
{"ldx.wu",0x38280000u,0xffff8000u},
{"preldx",0x382c0000u,0xffff8000u},
{"fldx.s",0x38300000u,0xffff8000u},
{"fldx.d",0x38340000u,0xffff8000u},
{"fstx.s",0x38380000u,0xffff8000u},
{"fstx.d",0x383c0000u,0xffff8000u},
{"vldx",0x38400000u,0xffff8000u},
{"vstx",0x38440000u,0xffff8000u},
{"xvldx",0x38480000u,0xffff8000u},
{"xvstx",0x384c0000u,0xffff8000u},
{"sc.q",0x38570000u,0xffff8000u},
{"amcas.b",0x38580000u,0xffff8000u},
{"amcas.h",0x38588000u,0xffff8000u},
{"amcas.w",0x38590000u,0xffff8000u},
{"amcas.d",0x38598000u,0xffff8000u},
{"amcas_db.b",0x385a0000u,0xffff8000u},
{"amcas_db.h",0x385a8000u,0xffff8000u},
{"amcas_db.w",0x385b0000u,0xffff8000u},
{"amcas_db.d",0x385b8000u,0xffff8000u},
{"amswap.b",0x385c0000u,0xffff8000u},
{"amswap.h",0x385c8000u,0xffff8000u},
{"amadd.b",0x385d0000u,0xffff8000u},
{"amadd.h",0x385d8000u,0xffff8000u},
{"amswap_db.b",0x385e0000u,0xffff8000u},
{"amswap_db.h",0x385e8000u,0xffff8000u},
{"amadd_db.b",0x385f0000u,0xffff8000u},
{"amadd_db.h",0x385f8000u,0xffff8000u},
{"amswap.w",0x38600000u,0xffff8000u},
{"amswap.d",0x38608000u,0xffff8000u},
{"amadd.w",0x38610000u,0xffff8000u},
{"amadd.d",0x38618000u,0xffff8000u},
{"amand.w",0x38620000u,0xffff8000u},
{"amand.d",0x38628000u,0xffff8000u},
{"amor.w",0x38630000u,0xffff8000u},
{"amor.d",0x38638000u,0xffff8000u},
{"amxor.w",0x38640000u,0xffff8000u},
{"amxor.d",0x38648000u,0xffff8000u},
{"ammax.w",0x38650000u,0xffff8000u},
{"ammax.d",0x38658000u,0xffff8000u},
{"ammin.w",0x38660000u,0xffff8000u},
{"ammin.d",0x38668000u,0xffff8000u},
{"ammax.wu",0x38670000u,0xffff8000u},
{"ammax.du",0x38678000u,0xffff8000u},
{"ammin.wu",0x38680000u,0xffff8000u},
{"ammin.du",0x38688000u,0xffff8000u},
{"amswap_db.w",0x38690000u,0xffff8000u},
{"amswap_db.d",0x38698000u,0xffff8000u},
{"amadd_db.w",0x386a0000u,0xffff8000u},
{"amadd_db.d",0x386a8000u,0xffff8000u},
{"amand_db.w",0x386b0000u,0xffff8000u},
{"amand_db.d",0x386b8000u,0xffff8000u},
{"amor_db.w",0x386c0000u,0xffff8000u},
{"amor_db.d",0x386c8000u,0xffff8000u},
{"amxor_db.w",0x386d0000u,0xffff8000u},
{"amxor_db.d",0x386d8000u,0xffff8000u},
{"ammax_db.w",0x386e0000u,0xffff8000u},
{"ammax_db.d",0x386e8000u,0xffff8000u},
{"ammin_db.w",0x386f0000u,0xffff8000u},
{"ammin_db.d",0x386f8000u,0xffff8000u},
{"ammax_db.wu",0x38700000u,0xffff8000u},
{"ammax_db.du",0x38708000u,0xffff8000u},
{"ammin_db.wu",0x38710000u,0xffff8000u},
{"ammin_db.du",0x38718000u,0xffff8000u},
{"dbar",0x38720000u,0xffff8000u},
{"ibar",0x38728000u,0xffff8000u},
{"fldgt.s",0x38740000u,0xffff8000u},
{"fldgt.d",0x38748000u,0xffff8000u},
{"fldle.s",0x38750000u,0xffff8000u},
{"fldle.d",0x38758000u,0xffff8000u},
{"fstgt.s",0x38760000u,0xffff8000u},
{"fstgt.d",0x38768000u,0xffff8000u},
{"fstle.s",0x38770000u,0xffff8000u},
{"fstle.d",0x38778000u,0xffff8000u},
{"ldgt.b",0x38780000u,0xffff8000u},
{"ldgt.h",0x38788000u,0xffff8000u},
{"ldgt.w",0x38790000u,0xffff8000u},
{"ldgt.d",0x38798000u,0xffff8000u},
{"ldle.b",0x387a0000u,0xffff8000u},
{"ldle.h",0x387a8000u,0xffff8000u},
{"ldle.w",0x387b0000u,0xffff8000u},
{"ldle.d",0x387b8000u,0xffff8000u},
{"stgt.b",0x387c0000u,0xffff8000u},
{"stgt.h",0x387c8000u,0xffff8000u},
{"stgt.w",0x387d0000u,0xffff8000u},
{"stgt.d",0x387d8000u,0xffff8000u},
{"stle.b",0x387e0000u,0xffff8000u},
{"stle.h",0x387e8000u,0xffff8000u},
{"stle.w",0x387f0000u,0xffff8000u},
{"stle.d",0x387f8000u,0xffff8000u},
{"vseq.b",0x70000000u,0xffff8000u},
{"vseq.h",0x70008000u,0xffff8000u},
{"vseq.w",0x70010000u,0xffff8000u},
{"vseq.d",0x70018000u,0xffff8000u},
{"vsle.b",0x70020000u,0xffff8000u},
{"vsle.h",0x70028000u,0xffff8000u},
{"vsle.w",0x70030000u,0xffff8000u},
{"vsle.d",0x70038000u,0xffff8000u},
{"vsle.bu",0x70040000u,0xffff8000u},
{"vsle.hu",0x70048000u,0xffff8000u},
{"vsle.wu",0x70050000u,0xffff8000u},
{"vsle.du",0x70058000u,0xffff8000u},
{"vslt.b",0x70060000u,0xffff8000u},
{"vslt.h",0x70068000u,0xffff8000u},
{"vslt.w",0x70070000u,0xffff8000u},
{"vslt.d",0x70078000u,0xffff8000u},
{"vslt.bu",0x70080000u,0xffff8000u},
{"vslt.hu",0x70088000u,0xffff8000u},
{"vslt.wu",0x70090000u,0xffff8000u},
{"vslt.du",0x70098000u,0xffff8000u},
{"vadd.b",0x700a0000u,0xffff8000u},
{"vadd.h",0x700a8000u,0xffff8000u},
{"vadd.w",0x700b0000u,0xffff8000u},
{"vadd.d",0x700b8000u,0xffff8000u},
{"vsub.b",0x700c0000u,0xffff8000u},
{"vsub.h",0x700c8000u,0xffff8000u},
{"vsub.w",0x700d0000u,0xffff8000u},
{"vsub.d",0x700d8000u,0xffff8000u},
{"vaddwev.h.b",0x701e0000u,0xffff8000u},
{"vaddwev.w.h",0x701e8000u,0xffff8000u},
{"vaddwev.d.w",0x701f0000u,0xffff8000u},
{"vaddwev.q.d",0x701f8000u,0xffff8000u},
{"vsubwev.h.b",0x70200000u,0xffff8000u},
{"vsubwev.w.h",0x70208000u,0xffff8000u},
{"vsubwev.d.w",0x70210000u,0xffff8000u},
{"vsubwev.q.d",0x70218000u,0xffff8000u},
{"vaddwod.h.b",0x70220000u,0xffff8000u},
{"vaddwod.w.h",0x70228000u,0xffff8000u},
{"vaddwod.d.w",0x70230000u,0xffff8000u},
{"vaddwod.q.d",0x70238000u,0xffff8000u},
{"vsubwod.h.b",0x70240000u,0xffff8000u},
{"vsubwod.w.h",0x70248000u,0xffff8000u},
{"vsubwod.d.w",0x70250000u,0xffff8000u},
{"vsubwod.q.d",0x70258000u,0xffff8000u},
{"vaddwev.h.bu",0x702e0000u,0xffff8000u},
{"vaddwev.w.hu",0x702e8000u,0xffff8000u},
{"vaddwev.d.wu",0x702f0000u,0xffff8000u},
{"vaddwev.q.du",0x702f8000u,0xffff8000u},
{"vsubwev.h.bu",0x70300000u,0xffff8000u},
{"vsubwev.w.hu",0x70308000u,0xffff8000u},
{"vsubwev.d.wu",0x70310000u,0xffff8000u},
{"vsubwev.q.du",0x70318000u,0xffff8000u},
{"vaddwod.h.bu",0x70320000u,0xffff8000u},
{"vaddwod.w.hu",0x70328000u,0xffff8000u},
{"vaddwod.d.wu",0x70330000u,0xffff8000u},
{"vaddwod.q.du",0x70338000u,0xffff8000u},
{"vsubwod.h.bu",0x70340000u,0xffff8000u},
{"vsubwod.w.hu",0x70348000u,0xffff8000u},
{"vsubwod.d.wu",0x70350000u,0xffff8000u},
{"vsubwod.q.du",0x70358000u,0xffff8000u},
{"vaddwev.h.bu.b",0x703e0000u,0xffff8000u},
{"vaddwev.w.hu.h",0x703e8000u,0xffff8000u},
{"vaddwev.d.wu.w",0x703f0000u,0xffff8000u},
{"vaddwev.q.du.d",0x703f8000u,0xffff8000u},
{"vaddwod.h.bu.b",0x70400000u,0xffff8000u},
{"vaddwod.w.hu.h",0x70408000u,0xffff8000u},
{"vaddwod.d.wu.w",0x70410000u,0xffff8000u},
{"vaddwod.q.du.d",0x70418000u,0xffff8000u},
{"vsadd.b",0x70460000u,0xffff8000u},
{"vsadd.h",0x70468000u,0xffff8000u},
{"vsadd.w",0x70470000u,0xffff8000u},
{"vsadd.d",0x70478000u,0xffff8000u},
{"vssub.b",0x70480000u,0xffff8000u},
{"vssub.h",0x70488000u,0xffff8000u},
{"vssub.w",0x70490000u,0xffff8000u},
{"vssub.d",0x70498000u,0xffff8000u},
{"vsadd.bu",0x704a0000u,0xffff8000u},
{"vsadd.hu",0x704a8000u,0xffff8000u},
{"vsadd.wu",0x704b0000u,0xffff8000u},
{"vsadd.du",0x704b8000u,0xffff8000u},
{"vssub.bu",0x704c0000u,0xffff8000u},
{"vssub.hu",0x704c8000u,0xffff8000u},
{"vssub.wu",0x704d0000u,0xffff8000u},
{"vssub.du",0x704d8000u,0xffff8000u},
{"vhaddw.h.b",0x70540000u,0xffff8000u},
{"vhaddw.w.h",0x70548000u,0xffff8000u},
{"vhaddw.d.w",0x70550000u,0xffff8000u},
{"vhaddw.q.d",0x70558000u,0xffff8000u},
{"vhsubw.h.b",0x70560000u,0xffff8000u},
{"vhsubw.w.h",0x70568000u,0xffff8000u},
{"vhsubw.d.w",0x70570000u,0xffff8000u},
{"vhsubw.q.d",0x70578000u,0xffff8000u},
{"vhaddw.hu.bu",0x70580000u,0xffff8000u},
{"vhaddw.wu.hu",0x70588000u,0xffff8000u},
{"vhaddw.du.wu",0x70590000u,0xffff8000u},
{"vhaddw.qu.du",0x70598000u,0xffff8000u},
{"vhsubw.hu.bu",0x705a0000u,0xffff8000u},
{"vhsubw.wu.hu",0x705a8000u,0xffff8000u},
{"vhsubw.du.wu",0x705b0000u,0xffff8000u},
{"vhsubw.qu.du",0x705b8000u,0xffff8000u},
{"vadda.b",0x705c0000u,0xffff8000u},
{"vadda.h",0x705c8000u,0xffff8000u},
{"vadda.w",0x705d0000u,0xffff8000u},
{"vadda.d",0x705d8000u,0xffff8000u},
{"vabsd.b",0x70600000u,0xffff8000u},
{"vabsd.h",0x70608000u,0xffff8000u},
{"vabsd.w",0x70610000u,0xffff8000u},
{"vabsd.d",0x70618000u,0xffff8000u},
{"vabsd.bu",0x70620000u,0xffff8000u},
{"vabsd.hu",0x70628000u,0xffff8000u},
{"vabsd.wu",0x70630000u,0xffff8000u},
{"vabsd.du",0x70638000u,0xffff8000u},
{"vavg.b",0x70640000u,0xffff8000u},
{"vavg.h",0x70648000u,0xffff8000u},
{"vavg.w",0x70650000u,0xffff8000u},
{"vavg.d",0x70658000u,0xffff8000u},
{"vavg.bu",0x70660000u,0xffff8000u},
{"vavg.hu",0x70668000u,0xffff8000u},
{"vavg.wu",0x70670000u,0xffff8000u},
{"vavg.du",0x70678000u,0xffff8000u},
{"vavgr.b",0x70680000u,0xffff8000u},
{"vavgr.h",0x70688000u,0xffff8000u},
{"vavgr.w",0x70690000u,0xffff8000u},
{"vavgr.d",0x70698000u,0xffff8000u},
{"vavgr.bu",0x706a0000u,0xffff8000u},
{"vavgr.hu",0x706a8000u,0xffff8000u},
{"vavgr.wu",0x706b0000u,0xffff8000u},
{"vavgr.du",0x706b8000u,0xffff8000u},
{"vmax.b",0x70700000u,0xffff8000u},
{"vmax.h",0x70708000u,0xffff8000u},
{"vmax.w",0x70710000u,0xffff8000u},
{"vmax.d",0x70718000u,0xffff8000u},
{"vmin.b",0x70720000u,0xffff8000u},
{"vmin.h",0x70728000u,0xffff8000u},
{"vmin.w",0x70730000u,0xffff8000u},
{"vmin.d",0x70738000u,0xffff8000u},
{"vmax.bu",0x70740000u,0xffff8000u},
{"vmax.hu",0x70748000u,0xffff8000u},
{"vmax.wu",0x70750000u,0xffff8000u},
{"vmax.du",0x70758000u,0xffff8000u},
{"vmin.bu",0x70760000u,0xffff8000u},
{"vmin.hu",0x70768000u,0xffff8000u},
{"vmin.wu",0x70770000u,0xffff8000u},
{"vmin.du",0x70778000u,0xffff8000u},
{"vmul.b",0x70840000u,0xffff8000u},
{"vmul.h",0x70848000u,0xffff8000u},
{"vmul.w",0x70850000u,0xffff8000u},
{"vmul.d",0x70858000u,0xffff8000u},
{"vmuh.b",0x70860000u,0xffff8000u},
{"vmuh.h",0x70868000u,0xffff8000u},
{"vmuh.w",0x70870000u,0xffff8000u},
{"vmuh.d",0x70878000u,0xffff8000u},
{"vmuh.bu",0x70880000u,0xffff8000u},
{"vmuh.hu",0x70888000u,0xffff8000u},
{"vmuh.wu",0x70890000u,0xffff8000u},
{"vmuh.du",0x70898000u,0xffff8000u},
{"vmulwev.h.b",0x70900000u,0xffff8000u},
{"vmulwev.w.h",0x70908000u,0xffff8000u},
{"vmulwev.d.w",0x70910000u,0xffff8000u},
{"vmulwev.q.d",0x70918000u,0xffff8000u},
{"vmulwod.h.b",0x70920000u,0xffff8000u},
{"vmulwod.w.h",0x70928000u,0xffff8000u},
{"vmulwod.d.w",0x70930000u,0xffff8000u},
{"vmulwod.q.d",0x70938000u,0xffff8000u},
{"vmulwev.h.bu",0x70980000u,0xffff8000u},
{"vmulwev.w.hu",0x70988000u,0xffff8000u},
{"vmulwev.d.wu",0x70990000u,0xffff8000u},
{"vmulwev.q.du",0x70998000u,0xffff8000u},
{"vmulwod.h.bu",0x709a0000u,0xffff8000u},
{"vmulwod.w.hu",0x709a8000u,0xffff8000u},
{"vmulwod.d.wu",0x709b0000u,0xffff8000u},
{"vmulwod.q.du",0x709b8000u,0xffff8000u},
{"vmulwev.h.bu.b",0x70a00000u,0xffff8000u},
{"vmulwev.w.hu.h",0x70a08000u,0xffff8000u},
{"vmulwev.d.wu.w",0x70a10000u,0xffff8000u},
{"vmulwev.q.du.d",0x70a18000u,0xffff8000u},
{"vmulwod.h.bu.b",0x70a20000u,0xffff8000u},
{"vmulwod.w.hu.h",0x70a28000u,0xffff8000u},
{"vmulwod.d.wu.w",0x70a30000u,0xffff8000u},
{"vmulwod.q.du.d",0x70a38000u,0xffff8000u},
{"vmadd.b",0x70a80000u,0xffff8000u},
{"vmadd.h",0x70a88000u,0xffff8000u},
{"vmadd.w",0x70a90000u,0xffff8000u},
{"vmadd.d",0x70a98000u,0xffff8000u},
{"vmsub.b",0x70aa0000u,0xffff8000u},
{"vmsub.h",0x70aa8000u,0xffff8000u},
{"vmsub.w",0x70ab0000u,0xffff8000u},
{"vmsub.d",0x70ab8000u,0xffff8000u},
{"vmaddwev.h.b",0x70ac0000u,0xffff8000u},
{"vmaddwev.w.h",0x70ac8000u,0xffff8000u},
{"vmaddwev.d.w",0x70ad0000u,0xffff8000u},
{"vmaddwev.q.d",0x70ad8000u,0xffff8000u},
{"vmaddwod.h.b",0x70ae0000u,0xffff8000u},
{"vmaddwod.w.h",0x70ae8000u,0xffff8000u},
{"vmaddwod.d.w",0x70af0000u,0xffff8000u},
{"vmaddwod.q.d",0x70af8000u,0xffff8000u},
{"vmaddwev.h.bu",0x70b40000u,0xffff8000u},
{"vmaddwev.w.hu",0x70b48000u,0xffff8000u},
{"vmaddwev.d.wu",0x70b50000u,0xffff8000u},
{"vmaddwev.q.du",0x70b58000u,0xffff8000u},
{"vmaddwod.h.bu",0x70b60000u,0xffff8000u},
{"vmaddwod.w.hu",0x70b68000u,0xffff8000u},
{"vmaddwod.d.wu",0x70b70000u,0xffff8000u},
{"vmaddwod.q.du",0x70b78000u,0xffff8000u},
{"vmaddwev.h.bu.b",0x70bc0000u,0xffff8000u},
{"vmaddwev.w.hu.h",0x70bc8000u,0xffff8000u},
{"vmaddwev.d.wu.w",0x70bd0000u,0xffff8000u},
{"vmaddwev.q.du.d",0x70bd8000u,0xffff8000u},
{"vmaddwod.h.bu.b",0x70be0000u,0xffff8000u},
{"vmaddwod.w.hu.h",0x70be8000u,0xffff8000u},
{"vmaddwod.d.wu.w",0x70bf0000u,0xffff8000u},
{"vmaddwod.q.du.d",0x70bf8000u,0xffff8000u},
{"vdiv.b",0x70e00000u,0xffff8000u},
{"vdiv.h",0x70e08000u,0xffff8000u},
{"vdiv.w",0x70e10000u,0xffff8000u},
{"vdiv.d",0x70e18000u,0xffff8000u},
{"vmod.b",0x70e20000u,0xffff8000u},
{"vmod.h",0x70e28000u,0xffff8000u},
{"vmod.w",0x70e30000u,0xffff8000u},
{"vmod.d",0x70e38000u,0xffff8000u},
{"vdiv.bu",0x70e40000u,0xffff8000u},
{"vdiv.hu",0x70e48000u,0xffff8000u},
{"vdiv.wu",0x70e50000u,0xffff8000u},
{"vdiv.du",0x70e58000u,0xffff8000u},
{"vmod.bu",0x70e60000u,0xffff8000u},
{"vmod.hu",0x70e68000u,0xffff8000u},
{"vmod.wu",0x70e70000u,0xffff8000u},
{"vmod.du",0x70e78000u,0xffff8000u},
{"vsll.b",0x70e80000u,0xffff8000u},
{"vsll.h",0x70e88000u,0xffff8000u},
{"vsll.w",0x70e90000u,0xffff8000u},
{"vsll.d",0x70e98000u,0xffff8000u},
{"vsrl.b",0x70ea0000u,0xffff8000u},
{"vsrl.h",0x70ea8000u,0xffff8000u},
{"vsrl.w",0x70eb0000u,0xffff8000u},
{"vsrl.d",0x70eb8000u,0xffff8000u},
{"vsra.b",0x70ec0000u,0xffff8000u},
{"vsra.h",0x70ec8000u,0xffff8000u},
{"vsra.w",0x70ed0000u,0xffff8000u},
{"vsra.d",0x70ed8000u,0xffff8000u},
{"vrotr.b",0x70ee0000u,0xffff8000u},
{"vrotr.h",0x70ee8000u,0xffff8000u},
{"vrotr.w",0x70ef0000u,0xffff8000u},
{"vrotr.d",0x70ef8000u,0xffff8000u},
{"vsrlr.b",0x70f00000u,0xffff8000u},
{"vsrlr.h",0x70f08000u,0xffff8000u},
{"vsrlr.w",0x70f10000u,0xffff8000u},
{"vsrlr.d",0x70f18000u,0xffff8000u},
{"vsrar.b",0x70f20000u,0xffff8000u},
{"vsrar.h",0x70f28000u,0xffff8000u},
{"vsrar.w",0x70f30000u,0xffff8000u},
{"vsrar.d",0x70f38000u,0xffff8000u},
{"vsrln.b.h",0x70f48000u,0xffff8000u},
{"vsrln.h.w",0x70f50000u,0xffff8000u},
{"vsrln.w.d",0x70f58000u,0xffff8000u},
{"vsran.b.h",0x70f68000u,0xffff8000u},
{"vsran.h.w",0x70f70000u,0xffff8000u},
{"vsran.w.d",0x70f78000u,0xffff8000u},
{"vsrlrn.b.h",0x70f88000u,0xffff8000u},
{"vsrlrn.h.w",0x70f90000u,0xffff8000u},
{"vsrlrn.w.d",0x70f98000u,0xffff8000u},
{"vsrarn.b.h",0x70fa8000u,0xffff8000u},
{"vsrarn.h.w",0x70fb0000u,0xffff8000u},
{"vsrarn.w.d",0x70fb8000u,0xffff8000u},
{"vssrln.b.h",0x70fc8000u,0xffff8000u},
{"vssrln.h.w",0x70fd0000u,0xffff8000u},
{"vssrln.w.d",0x70fd8000u,0xffff8000u},
{"vssran.b.h",0x70fe8000u,0xffff8000u},
{"vssran.h.w",0x70ff0000u,0xffff8000u},
{"vssran.w.d",0x70ff8000u,0xffff8000u},
{"vssrlrn.b.h",0x71008000u,0xffff8000u},
{"vssrlrn.h.w",0x71010000u,0xffff8000u},
{"vssrlrn.w.d",0x71018000u,0xffff8000u},
{"vssrarn.b.h",0x71028000u,0xffff8000u},
{"vssrarn.h.w",0x71030000u,0xffff8000u},
{"vssrarn.w.d",0x71038000u,0xffff8000u},
{"vssrln.bu.h",0x71048000u,0xffff8000u},
{"vssrln.hu.w",0x71050000u,0xffff8000u},
{"vssrln.wu.d",0x71058000u,0xffff8000u},
{"vssran.bu.h",0x71068000u,0xffff8000u},
{"vssran.hu.w",0x71070000u,0xffff8000u},
{"vssran.wu.d",0x71078000u,0xffff8000u},
{"vssrlrn.bu.h",0x71088000u,0xffff8000u},
{"vssrlrn.hu.w",0x71090000u,0xffff8000u},
{"vssrlrn.wu.d",0x71098000u,0xffff8000u},
{"vssrarn.bu.h",0x710a8000u,0xffff8000u},
{"vssrarn.hu.w",0x710b0000u,0xffff8000u},
{"vssrarn.wu.d",0x710b8000u,0xffff8000u},
{"vbitclr.b",0x710c0000u,0xffff8000u},
{"vbitclr.h",0x710c8000u,0xffff8000u},
{"vbitclr.w",0x710d0000u,0xffff8000u},
{"vbitclr.d",0x710d8000u,0xffff8000u},
{"vbitset.b",0x710e0000u,0xffff8000u},
{"vbitset.h",0x710e8000u,0xffff8000u},
{"vbitset.w",0x710f0000u,0xffff8000u},
{"vbitset.d",0x710f8000u,0xffff8000u},
{"vbitrev.b",0x71100000u,0xffff8000u},
{"vbitrev.h",0x71108000u,0xffff8000u},
{"vbitrev.w",0x71110000u,0xffff8000u},
{"vbitrev.d",0x71118000u,0xffff8000u},
{"vpackev.b",0x71160000u,0xffff8000u},
{"vpackev.h",0x71168000u,0xffff8000u},
{"vpackev.w",0x71170000u,0xffff8000u},
{"vpackev.d",0x71178000u,0xffff8000u},
{"vpackod.b",0x71180000u,0xffff8000u},
{"vpackod.h",0x71188000u,0xffff8000u},
{"vpackod.w",0x71190000u,0xffff8000u},
{"vpackod.d",0x71198000u,0xffff8000u},
{"vilvl.b",0x711a0000u,0xffff8000u},
{"vilvl.h",0x711a8000u,0xffff8000u},
{"vilvl.w",0x711b0000u,0xffff8000u},
{"vilvl.d",0x711b8000u,0xffff8000u},
{"vilvh.b",0x711c0000u,0xffff8000u},
{"vilvh.h",0x711c8000u,0xffff8000u},
{"vilvh.w",0x711d0000u,0xffff8000u},
{"vilvh.d",0x711d8000u,0xffff8000u},
{"vpickev.b",0x711e0000u,0xffff8000u},
{"vpickev.h",0x711e8000u,0xffff8000u},
{"vpickev.w",0x711f0000u,0xffff8000u},
{"vpickev.d",0x711f8000u,0xffff8000u},
{"vpickod.b",0x71200000u,0xffff8000u},
{"vpickod.h",0x71208000u,0xffff8000u},
{"vpickod.w",0x71210000u,0xffff8000u},
{"vpickod.d",0x71218000u,0xffff8000u},
{"vreplve.b",0x71220000u,0xffff8000u},
{"vreplve.h",0x71228000u,0xffff8000u},
{"vreplve.w",0x71230000u,0xffff8000u},
{"vreplve.d",0x71238000u,0xffff8000u},
{"vand.v",0x71260000u,0xffff8000u},
{"vor.v",0x71268000u,0xffff8000u},
{"vxor.v",0x71270000u,0xffff8000u},
{"vnor.v",0x71278000u,0xffff8000u},
{"vandn.v",0x71280000u,0xffff8000u},
{"vorn.v",0x71288000u,0xffff8000u},
{"vfrstp.b",0x712b0000u,0xffff8000u},
{"vfrstp.h",0x712b8000u,0xffff8000u},
{"vadd.q",0x712d0000u,0xffff8000u},
{"vsub.q",0x712d8000u,0xffff8000u},
{"vsigncov.b",0x712e0000u,0xffff8000u},
{"vsigncov.h",0x712e8000u,0xffff8000u},
{"vsigncov.w",0x712f0000u,0xffff8000u},
{"vsigncov.d",0x712f8000u,0xffff8000u},
{"vfadd.s",0x71308000u,0xffff8000u},
{"vfadd.d",0x71310000u,0xffff8000u},
{"vfsub.s",0x71328000u,0xffff8000u},
{"vfsub.d",0x71330000u,0xffff8000u},
{"vfmul.s",0x71388000u,0xffff8000u},
{"vfmul.d",0x71390000u,0xffff8000u},
{"vfdiv.s",0x713a8000u,0xffff8000u},
{"vfdiv.d",0x713b0000u,0xffff8000u},
{"vfmax.s",0x713c8000u,0xffff8000u},
{"vfmax.d",0x713d0000u,0xffff8000u},
{"vfmin.s",0x713e8000u,0xffff8000u},
{"vfmin.d",0x713f0000u,0xffff8000u},
{"vfmaxa.s",0x71408000u,0xffff8000u},
{"vfmaxa.d",0x71410000u,0xffff8000u},
{"vfmina.s",0x71428000u,0xffff8000u},
{"vfmina.d",0x71430000u,0xffff8000u},
{"vfcvt.h.s",0x71460000u,0xffff8000u},
{"vfcvt.s.d",0x71468000u,0xffff8000u},
{"vffint.s.l",0x71480000u,0xffff8000u},
{"vftint.w.d",0x71498000u,0xffff8000u},
{"vftintrm.w.d",0x714a0000u,0xffff8000u},
{"vftintrp.w.d",0x714a8000u,0xffff8000u},
{"vftintrz.w.d",0x714b0000u,0xffff8000u},
{"vftintrne.w.d",0x714b8000u,0xffff8000u},
{"vshuf.h",0x717a8000u,0xffff8000u},
{"vshuf.w",0x717b0000u,0xffff8000u},
{"vshuf.d",0x717b8000u,0xffff8000u},
{"vseqi.b",0x72800000u,0xffff8000u},
{"vseqi.h",0x72808000u,0xffff8000u},
{"vseqi.w",0x72810000u,0xffff8000u},
{"vseqi.d",0x72818000u,0xffff8000u},
{"vslei.b",0x72820000u,0xffff8000u},
{"vslei.h",0x72828000u,0xffff8000u},
{"vslei.w",0x72830000u,0xffff8000u},
{"vslei.d",0x72838000u,0xffff8000u},
{"vslei.bu",0x72840000u,0xffff8000u},
{"vslei.hu",0x72848000u,0xffff8000u},
{"vslei.wu",0x72850000u,0xffff8000u},
{"vslei.du",0x72858000u,0xffff8000u},
{"vslti.b",0x72860000u,0xffff8000u},
{"vslti.h",0x72868000u,0xffff8000u},
{"vslti.w",0x72870000u,0xffff8000u},
{"vslti.d",0x72878000u,0xffff8000u},
{"vslti.bu",0x72880000u,0xffff8000u},
{"vslti.hu",0x72888000u,0xffff8000u},
{"vslti.wu",0x72890000u,0xffff8000u},
{"vslti.du",0x72898000u,0xffff8000u},
{"vaddi.bu",0x728a0000u,0xffff8000u},
{"vaddi.hu",0x728a8000u,0xffff8000u},
{"vaddi.wu",0x728b0000u,0xffff8000u},
{"vaddi.du",0x728b8000u,0xffff8000u},
{"vsubi.bu",0x728c0000u,0xffff8000u},
{"vsubi.hu",0x728c8000u,0xffff8000u},
{"vsubi.wu",0x728d0000u,0xffff8000u},
{"vsubi.du",0x728d8000u,0xffff8000u},
{"vbsll.v",0x728e0000u,0xffff8000u},
{"vbsrl.v",0x728e8000u,0xffff8000u},
{"vmaxi.b",0x72900000u,0xffff8000u},
{"vmaxi.h",0x72908000u,0xffff8000u},
{"vmaxi.w",0x72910000u,0xffff8000u},
{"vmaxi.d",0x72918000u,0xffff8000u},
{"vmini.b",0x72920000u,0xffff8000u},
{"vmini.h",0x72928000u,0xffff8000u},
{"vmini.w",0x72930000u,0xffff8000u},
{"vmini.d",0x72938000u,0xffff8000u},
{"vmaxi.bu",0x72940000u,0xffff8000u},
{"vmaxi.hu",0x72948000u,0xffff8000u},
{"vmaxi.wu",0x72950000u,0xffff8000u},
{"vmaxi.du",0x72958000u,0xffff8000u},
{"vmini.bu",0x72960000u,0xffff8000u},
{"vmini.hu",0x72968000u,0xffff8000u},
{"vmini.wu",0x72970000u,0xffff8000u},
{"vmini.du",0x72978000u,0xffff8000u},
{"vfrstpi.b",0x729a0000u,0xffff8000u},
{"vfrstpi.h",0x729a8000u,0xffff8000u},
{"vrotri.w",0x72a08000u,0xffff8000u},
{"vsrlri.w",0x72a48000u,0xffff8000u},
{"vsrari.w",0x72a88000u,0xffff8000u},
{"vsllwil.d.w",0x73088000u,0xffff8000u},
{"vsllwil.du.wu",0x730c8000u,0xffff8000u},
{"vbitclri.w",0x73108000u,0xffff8000u},
{"vbitseti.w",0x73148000u,0xffff8000u},
{"vbitrevi.w",0x73188000u,0xffff8000u},
{"vsat.w",0x73248000u,0xffff8000u},
{"vsat.wu",0x73288000u,0xffff8000u},
{"vslli.w",0x732c8000u,0xffff8000u},
{"vsrli.w",0x73308000u,0xffff8000u},
{"vsrai.w",0x73348000u,0xffff8000u},
{"vsrlni.h.w",0x73408000u,0xffff8000u},
{"vsrlrni.h.w",0x73448000u,0xffff8000u},
{"vssrlni.h.w",0x73488000u,0xffff8000u},
{"vssrlni.hu.w",0x734c8000u,0xffff8000u},
{"vssrlrni.h.w",0x73508000u,0xffff8000u},
{"vssrlrni.hu.w",0x73548000u,0xffff8000u},
{"vsrani.h.w",0x73588000u,0xffff8000u},
{"vsrarni.h.w",0x735c8000u,0xffff8000u},
{"vssrani.h.w",0x73608000u,0xffff8000u},
{"vssrani.hu.w",0x73648000u,0xffff8000u},
{"vssrarni.h.w",0x73688000u,0xffff8000u},
{"vssrarni.hu.w",0x736c8000u,0xffff8000u},
{"xvseq.b",0x74000000u,0xffff8000u},
{"xvseq.h",0x74008000u,0xffff8000u},
{"xvseq.w",0x74010000u,0xffff8000u},
{"xvseq.d",0x74018000u,0xffff8000u},
{"xvsle.b",0x74020000u,0xffff8000u},
{"xvsle.h",0x74028000u,0xffff8000u},
{"xvsle.w",0x74030000u,0xffff8000u},
{"xvsle.d",0x74038000u,0xffff8000u},
{"xvsle.bu",0x74040000u,0xffff8000u},
{"xvsle.hu",0x74048000u,0xffff8000u},
{"xvsle.wu",0x74050000u,0xffff8000u},
{"xvsle.du",0x74058000u,0xffff8000u},
{"xvslt.b",0x74060000u,0xffff8000u},
{"xvslt.h",0x74068000u,0xffff8000u},
{"xvslt.w",0x74070000u,0xffff8000u},
{"xvslt.d",0x74078000u,0xffff8000u},
{"xvslt.bu",0x74080000u,0xffff8000u},
{"xvslt.hu",0x74088000u,0xffff8000u},
{"xvslt.wu",0x74090000u,0xffff8000u},
{"xvslt.du",0x74098000u,0xffff8000u},
{"xvadd.b",0x740a0000u,0xffff8000u},
{"xvadd.h",0x740a8000u,0xffff8000u},
{"xvadd.w",0x740b0000u,0xffff8000u},
{"xvadd.d",0x740b8000u,0xffff8000u},
{"xvsub.b",0x740c0000u,0xffff8000u},
{"xvsub.h",0x740c8000u,0xffff8000u},
{"xvsub.w",0x740d0000u,0xffff8000u},
{"xvsub.d",0x740d8000u,0xffff8000u},
{"xvaddwev.h.b",0x741e0000u,0xffff8000u},
{"xvaddwev.w.h",0x741e8000u,0xffff8000u},
{"xvaddwev.d.w",0x741f0000u,0xffff8000u},
{"xvaddwev.q.d",0x741f8000u,0xffff8000u},
{"xvsubwev.h.b",0x74200000u,0xffff8000u},
{"xvsubwev.w.h",0x74208000u,0xffff8000u},
{"xvsubwev.d.w",0x74210000u,0xffff8000u},
{"xvsubwev.q.d",0x74218000u,0xffff8000u},
{"xvaddwod.h.b",0x74220000u,0xffff8000u},
{"xvaddwod.w.h",0x74228000u,0xffff8000u},
{"xvaddwod.d.w",0x74230000u,0xffff8000u},
{"xvaddwod.q.d",0x74238000u,0xffff8000u},
{"xvsubwod.h.b",0x74240000u,0xffff8000u},
{"xvsubwod.w.h",0x74248000u,0xffff8000u},
{"xvsubwod.d.w",0x74250000u,0xffff8000u},
{"xvsubwod.q.d",0x74258000u,0xffff8000u},
{"xvaddwev.h.bu",0x742e0000u,0xffff8000u},
{"xvaddwev.w.hu",0x742e8000u,0xffff8000u},
{"xvaddwev.d.wu",0x742f0000u,0xffff8000u},
{"xvaddwev.q.du",0x742f8000u,0xffff8000u},
{"xvsubwev.h.bu",0x74300000u,0xffff8000u},
{"xvsubwev.w.hu",0x74308000u,0xffff8000u},
{"xvsubwev.d.wu",0x74310000u,0xffff8000u},
{"xvsubwev.q.du",0x74318000u,0xffff8000u},
{"xvaddwod.h.bu",0x74320000u,0xffff8000u},
{"xvaddwod.w.hu",0x74328000u,0xffff8000u},
{"xvaddwod.d.wu",0x74330000u,0xffff8000u},
{"xvaddwod.q.du",0x74338000u,0xffff8000u},
{"xvsubwod.h.bu",0x74340000u,0xffff8000u},
{"xvsubwod.w.hu",0x74348000u,0xffff8000u},
{"xvsubwod.d.wu",0x74350000u,0xffff8000u},
{"xvsubwod.q.du",0x74358000u,0xffff8000u},
{"xvaddwev.h.bu.b",0x743e0000u,0xffff8000u},
{"xvaddwev.w.hu.h",0x743e8000u,0xffff8000u},
{"xvaddwev.d.wu.w",0x743f0000u,0xffff8000u},
{"xvaddwev.q.du.d",0x743f8000u,0xffff8000u},
{"xvaddwod.h.bu.b",0x74400000u,0xffff8000u},
{"xvaddwod.w.hu.h",0x74408000u,0xffff8000u},
{"xvaddwod.d.wu.w",0x74410000u,0xffff8000u},
{"xvaddwod.q.du.d",0x74418000u,0xffff8000u},
{"xvsadd.b",0x74460000u,0xffff8000u},
{"xvsadd.h",0x74468000u,0xffff8000u},
{"xvsadd.w",0x74470000u,0xffff8000u},
{"xvsadd.d",0x74478000u,0xffff8000u},
{"xvssub.b",0x74480000u,0xffff8000u},
{"xvssub.h",0x74488000u,0xffff8000u},
{"xvssub.w",0x74490000u,0xffff8000u},
{"xvssub.d",0x74498000u,0xffff8000u},
{"xvsadd.bu",0x744a0000u,0xffff8000u},
{"xvsadd.hu",0x744a8000u,0xffff8000u},
{"xvsadd.wu",0x744b0000u,0xffff8000u},
{"xvsadd.du",0x744b8000u,0xffff8000u},
{"xvssub.bu",0x744c0000u,0xffff8000u},
{"xvssub.hu",0x744c8000u,0xffff8000u},
{"xvssub.wu",0x744d0000u,0xffff8000u},
{"xvssub.du",0x744d8000u,0xffff8000u},
{"xvhaddw.h.b",0x74540000u,0xffff8000u},
{"xvhaddw.w.h",0x74548000u,0xffff8000u},
{"xvhaddw.d.w",0x74550000u,0xffff8000u},
{"xvhaddw.q.d",0x74558000u,0xffff8000u},
{"xvhsubw.h.b",0x74560000u,0xffff8000u},
{"xvhsubw.w.h",0x74568000u,0xffff8000u},
{"xvhsubw.d.w",0x74570000u,0xffff8000u},
{"xvhsubw.q.d",0x74578000u,0xffff8000u},
{"xvhaddw.hu.bu",0x74580000u,0xffff8000u},
{"xvhaddw.wu.hu",0x74588000u,0xffff8000u},
{"xvhaddw.du.wu",0x74590000u,0xffff8000u},
{"xvhaddw.qu.du",0x74598000u,0xffff8000u},
{"xvhsubw.hu.bu",0x745a0000u,0xffff8000u},
{"xvhsubw.wu.hu",0x745a8000u,0xffff8000u},
{"xvhsubw.du.wu",0x745b0000u,0xffff8000u},
{"xvhsubw.qu.du",0x745b8000u,0xffff8000u},
{"xvadda.b",0x745c0000u,0xffff8000u},
{"xvadda.h",0x745c8000u,0xffff8000u},
{"xvadda.w",0x745d0000u,0xffff8000u},
{"xvadda.d",0x745d8000u,0xffff8000u},
{"xvabsd.b",0x74600000u,0xffff8000u},
{"xvabsd.h",0x74608000u,0xffff8000u},
{"xvabsd.w",0x74610000u,0xffff8000u},
{"xvabsd.d",0x74618000u,0xffff8000u},
{"xvabsd.bu",0x74620000u,0xffff8000u},
{"xvabsd.hu",0x74628000u,0xffff8000u},
{"xvabsd.wu",0x74630000u,0xffff8000u},
{"xvabsd.du",0x74638000u,0xffff8000u},
{"xvavg.b",0x74640000u,0xffff8000u},
{"xvavg.h",0x74648000u,0xffff8000u},
{"xvavg.w",0x74650000u,0xffff8000u},
{"xvavg.d",0x74658000u,0xffff8000u},
{"xvavg.bu",0x74660000u,0xffff8000u},
{"xvavg.hu",0x74668000u,0xffff8000u},
{"xvavg.wu",0x74670000u,0xffff8000u},
{"xvavg.du",0x74678000u,0xffff8000u},
{"xvavgr.b",0x74680000u,0xffff8000u},
{"xvavgr.h",0x74688000u,0xffff8000u},
{"xvavgr.w",0x74690000u,0xffff8000u},
{"xvavgr.d",0x74698000u,0xffff8000u},
{"xvavgr.bu",0x746a0000u,0xffff8000u},
{"xvavgr.hu",0x746a8000u,0xffff8000u},
{"xvavgr.wu",0x746b0000u,0xffff8000u},
{"xvavgr.du",0x746b8000u,0xffff8000u},
{"xvmax.b",0x74700000u,0xffff8000u},
{"xvmax.h",0x74708000u,0xffff8000u},
{"xvmax.w",0x74710000u,0xffff8000u},
{"xvmax.d",0x74718000u,0xffff8000u},
{"xvmin.b",0x74720000u,0xffff8000u},
{"xvmin.h",0x74728000u,0xffff8000u},
{"xvmin.w",0x74730000u,0xffff8000u},
{"xvmin.d",0x74738000u,0xffff8000u},
{"xvmax.bu",0x74740000u,0xffff8000u},
{"xvmax.hu",0x74748000u,0xffff8000u},
{"xvmax.wu",0x74750000u,0xffff8000u},
{"xvmax.du",0x74758000u,0xffff8000u},
{"xvmin.bu",0x74760000u,0xffff8000u},
{"xvmin.hu",0x74768000u,0xffff8000u},
{"xvmin.wu",0x74770000u,0xffff8000u},
{"xvmin.du",0x74778000u,0xffff8000u},
{"xvmul.b",0x74840000u,0xffff8000u},
{"xvmul.h",0x74848000u,0xffff8000u},
{"xvmul.w",0x74850000u,0xffff8000u},
{"xvmul.d",0x74858000u,0xffff8000u},
{"xvmuh.b",0x74860000u,0xffff8000u},
{"xvmuh.h",0x74868000u,0xffff8000u},
{"xvmuh.w",0x74870000u,0xffff8000u},
{"xvmuh.d",0x74878000u,0xffff8000u},
{"xvmuh.bu",0x74880000u,0xffff8000u},
{"xvmuh.hu",0x74888000u,0xffff8000u},
{"xvmuh.wu",0x74890000u,0xffff8000u},
{"xvmuh.du",0x74898000u,0xffff8000u},
{"xvmulwev.h.b",0x74900000u,0xffff8000u},
{"xvmulwev.w.h",0x74908000u,0xffff8000u},
{"xvmulwev.d.w",0x74910000u,0xffff8000u},
{"xvmulwev.q.d",0x74918000u,0xffff8000u},
{"xvmulwod.h.b",0x74920000u,0xffff8000u},
{"xvmulwod.w.h",0x74928000u,0xffff8000u},
{"xvmulwod.d.w",0x74930000u,0xffff8000u},
{"xvmulwod.q.d",0x74938000u,0xffff8000u},
{"xvmulwev.h.bu",0x74980000u,0xffff8000u},
{"xvmulwev.w.hu",0x74988000u,0xffff8000u},
{"xvmulwev.d.wu",0x74990000u,0xffff8000u},
{"xvmulwev.q.du",0x74998000u,0xffff8000u},
{"xvmulwod.h.bu",0x749a0000u,0xffff8000u},
{"xvmulwod.w.hu",0x749a8000u,0xffff8000u},
{"xvmulwod.d.wu",0x749b0000u,0xffff8000u},
{"xvmulwod.q.du",0x749b8000u,0xffff8000u},
{"xvmulwev.h.bu.b",0x74a00000u,0xffff8000u},
{"xvmulwev.w.hu.h",0x74a08000u,0xffff8000u},
{"xvmulwev.d.wu.w",0x74a10000u,0xffff8000u},
{"xvmulwev.q.du.d",0x74a18000u,0xffff8000u},
{"xvmulwod.h.bu.b",0x74a20000u,0xffff8000u},
{"xvmulwod.w.hu.h",0x74a28000u,0xffff8000u},
{"xvmulwod.d.wu.w",0x74a30000u,0xffff8000u},
{"xvmulwod.q.du.d",0x74a38000u,0xffff8000u},
{"xvmadd.b",0x74a80000u,0xffff8000u},
{"xvmadd.h",0x74a88000u,0xffff8000u},
{"xvmadd.w",0x74a90000u,0xffff8000u},
{"xvmadd.d",0x74a98000u,0xffff8000u},
{"xvmsub.b",0x74aa0000u,0xffff8000u},
{"xvmsub.h",0x74aa8000u,0xffff8000u},
{"xvmsub.w",0x74ab0000u,0xffff8000u},
{"xvmsub.d",0x74ab8000u,0xffff8000u},
{"xvmaddwev.h.b",0x74ac0000u,0xffff8000u},
{"xvmaddwev.w.h",0x74ac8000u,0xffff8000u},
{"xvmaddwev.d.w",0x74ad0000u,0xffff8000u},
{"xvmaddwev.q.d",0x74ad8000u,0xffff8000u},
{"xvmaddwod.h.b",0x74ae0000u,0xffff8000u},
{"xvmaddwod.w.h",0x74ae8000u,0xffff8000u},
{"xvmaddwod.d.w",0x74af0000u,0xffff8000u},
{"xvmaddwod.q.d",0x74af8000u,0xffff8000u},
{"xvmaddwev.h.bu",0x74b40000u,0xffff8000u},
{"xvmaddwev.w.hu",0x74b48000u,0xffff8000u},
{"xvmaddwev.d.wu",0x74b50000u,0xffff8000u},
{"xvmaddwev.q.du",0x74b58000u,0xffff8000u},
{"xvmaddwod.h.bu",0x74b60000u,0xffff8000u},
{"xvmaddwod.w.hu",0x74b68000u,0xffff8000u},
{"xvmaddwod.d.wu",0x74b70000u,0xffff8000u},
{"xvmaddwod.q.du",0x74b78000u,0xffff8000u},
{"xvmaddwev.h.bu.b",0x74bc0000u,0xffff8000u},
{"xvmaddwev.w.hu.h",0x74bc8000u,0xffff8000u},
{"xvmaddwev.d.wu.w",0x74bd0000u,0xffff8000u},
{"xvmaddwev.q.du.d",0x74bd8000u,0xffff8000u},
{"xvmaddwod.h.bu.b",0x74be0000u,0xffff8000u},
{"xvmaddwod.w.hu.h",0x74be8000u,0xffff8000u},
{"xvmaddwod.d.wu.w",0x74bf0000u,0xffff8000u},
{"xvmaddwod.q.du.d",0x74bf8000u,0xffff8000u},
{"xvdiv.b",0x74e00000u,0xffff8000u},
{"xvdiv.h",0x74e08000u,0xffff8000u},
{"xvdiv.w",0x74e10000u,0xffff8000u},
{"xvdiv.d",0x74e18000u,0xffff8000u},
{"xvmod.b",0x74e20000u,0xffff8000u},
{"xvmod.h",0x74e28000u,0xffff8000u},
{"xvmod.w",0x74e30000u,0xffff8000u},
{"xvmod.d",0x74e38000u,0xffff8000u},
{"xvdiv.bu",0x74e40000u,0xffff8000u},
{"xvdiv.hu",0x74e48000u,0xffff8000u},
{"xvdiv.wu",0x74e50000u,0xffff8000u},
{"xvdiv.du",0x74e58000u,0xffff8000u},
{"xvmod.bu",0x74e60000u,0xffff8000u},
{"xvmod.hu",0x74e68000u,0xffff8000u},
{"xvmod.wu",0x74e70000u,0xffff8000u},
{"xvmod.du",0x74e78000u,0xffff8000u},
{"xvsll.b",0x74e80000u,0xffff8000u},
{"xvsll.h",0x74e88000u,0xffff8000u},
{"xvsll.w",0x74e90000u,0xffff8000u},
{"xvsll.d",0x74e98000u,0xffff8000u},
{"xvsrl.b",0x74ea0000u,0xffff8000u},
{"xvsrl.h",0x74ea8000u,0xffff8000u},
{"xvsrl.w",0x74eb0000u,0xffff8000u},
{"xvsrl.d",0x74eb8000u,0xffff8000u},
{"xvsra.b",0x74ec0000u,0xffff8000u},
{"xvsra.h",0x74ec8000u,0xffff8000u},
{"xvsra.w",0x74ed0000u,0xffff8000u},
{"xvsra.d",0x74ed8000u,0xffff8000u},
{"xvrotr.b",0x74ee0000u,0xffff8000u},
{"xvrotr.h",0x74ee8000u,0xffff8000u},
{"xvrotr.w",0x74ef0000u,0xffff8000u},
{"xvrotr.d",0x74ef8000u,0xffff8000u},
{"xvsrlr.b",0x74f00000u,0xffff8000u},
{"xvsrlr.h",0x74f08000u,0xffff8000u},
{"xvsrlr.w",0x74f10000u,0xffff8000u},
{"xvsrlr.d",0x74f18000u,0xffff8000u},
{"xvsrar.b",0x74f20000u,0xffff8000u},
{"xvsrar.h",0x74f28000u,0xffff8000u},
{"xvsrar.w",0x74f30000u,0xffff8000u},
{"xvsrar.d",0x74f38000u,0xffff8000u},
{"xvsrln.b.h",0x74f48000u,0xffff8000u},
{"xvsrln.h.w",0x74f50000u,0xffff8000u},
{"xvsrln.w.d",0x74f58000u,0xffff8000u},
{"xvsran.b.h",0x74f68000u,0xffff8000u},
{"xvsran.h.w",0x74f70000u,0xffff8000u},
{"xvsran.w.d",0x74f78000u,0xffff8000u},
{"xvsrlrn.b.h",0x74f88000u,0xffff8000u},
{"xvsrlrn.h.w",0x74f90000u,0xffff8000u},
{"xvsrlrn.w.d",0x74f98000u,0xffff8000u},
{"xvsrarn.b.h",0x74fa8000u,0xffff8000u},
{"xvsrarn.h.w",0x74fb0000u,0xffff8000u},
{"xvsrarn.w.d",0x74fb8000u,0xffff8000u},
{"xvssrln.b.h",0x74fc8000u,0xffff8000u},
{"xvssrln.h.w",0x74fd0000u,0xffff8000u},
{"xvssrln.w.d",0x74fd8000u,0xffff8000u},
{"xvssran.b.h",0x74fe8000u,0xffff8000u},
{"xvssran.h.w",0x74ff0000u,0xffff8000u},
{"xvssran.w.d",0x74ff8000u,0xffff8000u},
{"xvssrlrn.b.h",0x75008000u,0xffff8000u},
{"xvssrlrn.h.w",0x75010000u,0xffff8000u},
{"xvssrlrn.w.d",0x75018000u,0xffff8000u},
{"xvssrarn.b.h",0x75028000u,0xffff8000u},
{"xvssrarn.h.w",0x75030000u,0xffff8000u},
{"xvssrarn.w.d",0x75038000u,0xffff8000u},
{"xvssrln.bu.h",0x75048000u,0xffff8000u},
{"xvssrln.hu.w",0x75050000u,0xffff8000u},
{"xvssrln.wu.d",0x75058000u,0xffff8000u},
{"xvssran.bu.h",0x75068000u,0xffff8000u},
{"xvssran.hu.w",0x75070000u,0xffff8000u},
{"xvssran.wu.d",0x75078000u,0xffff8000u},
{"xvssrlrn.bu.h",0x75088000u,0xffff8000u},
{"xvssrlrn.hu.w",0x75090000u,0xffff8000u},
{"xvssrlrn.wu.d",0x75098000u,0xffff8000u},
{"xvssrarn.bu.h",0x750a8000u,0xffff8000u},
{"xvssrarn.hu.w",0x750b0000u,0xffff8000u},
{"xvssrarn.wu.d",0x750b8000u,0xffff8000u},
{"xvbitclr.b",0x750c0000u,0xffff8000u},
{"xvbitclr.h",0x750c8000u,0xffff8000u},
{"xvbitclr.w",0x750d0000u,0xffff8000u},
{"xvbitclr.d",0x750d8000u,0xffff8000u},
{"xvbitset.b",0x750e0000u,0xffff8000u},
{"xvbitset.h",0x750e8000u,0xffff8000u},
{"xvbitset.w",0x750f0000u,0xffff8000u},
{"xvbitset.d",0x750f8000u,0xffff8000u},
{"xvbitrev.b",0x75100000u,0xffff8000u},
{"xvbitrev.h",0x75108000u,0xffff8000u},
{"xvbitrev.w",0x75110000u,0xffff8000u},
{"xvbitrev.d",0x75118000u,0xffff8000u},
{"xvpackev.b",0x75160000u,0xffff8000u},
{"xvpackev.h",0x75168000u,0xffff8000u},
{"xvpackev.w",0x75170000u,0xffff8000u},
{"xvpackev.d",0x75178000u,0xffff8000u},
{"xvpackod.b",0x75180000u,0xffff8000u},
{"xvpackod.h",0x75188000u,0xffff8000u},
{"xvpackod.w",0x75190000u,0xffff8000u},
{"xvpackod.d",0x75198000u,0xffff8000u},
{"xvilvl.b",0x751a0000u,0xffff8000u},
{"xvilvl.h",0x751a8000u,0xffff8000u},
{"xvilvl.w",0x751b0000u,0xffff8000u},
{"xvilvl.d",0x751b8000u,0xffff8000u},
{"xvilvh.b",0x751c0000u,0xffff8000u},
{"xvilvh.h",0x751c8000u,0xffff8000u},
{"xvilvh.w",0x751d0000u,0xffff8000u},
{"xvilvh.d",0x751d8000u,0xffff8000u},
{"xvpickev.b",0x751e0000u,0xffff8000u},
{"xvpickev.h",0x751e8000u,0xffff8000u},
{"xvpickev.w",0x751f0000u,0xffff8000u},
{"xvpickev.d",0x751f8000u,0xffff8000u},
{"xvpickod.b",0x75200000u,0xffff8000u},
{"xvpickod.h",0x75208000u,0xffff8000u},
{"xvpickod.w",0x75210000u,0xffff8000u},
{"xvpickod.d",0x75218000u,0xffff8000u},
{"xvreplve.b",0x75220000u,0xffff8000u},
{"xvreplve.h",0x75228000u,0xffff8000u},
{"xvreplve.w",0x75230000u,0xffff8000u},
{"xvreplve.d",0x75238000u,0xffff8000u},
{"xvand.v",0x75260000u,0xffff8000u},
{"xvor.v",0x75268000u,0xffff8000u},
{"xvxor.v",0x75270000u,0xffff8000u},
{"xvnor.v",0x75278000u,0xffff8000u},
{"xvandn.v",0x75280000u,0xffff8000u},
{"xvorn.v",0x75288000u,0xffff8000u},
{"xvfrstp.b",0x752b0000u,0xffff8000u},
{"xvfrstp.h",0x752b8000u,0xffff8000u},
{"xvadd.q",0x752d0000u,0xffff8000u},
{"xvsub.q",0x752d8000u,0xffff8000u},
{"xvsigncov.b",0x752e0000u,0xffff8000u},
{"xvsigncov.h",0x752e8000u,0xffff8000u},
{"xvsigncov.w",0x752f0000u,0xffff8000u},
{"xvsigncov.d",0x752f8000u,0xffff8000u},
{"xvfadd.s",0x75308000u,0xffff8000u},
{"xvfadd.d",0x75310000u,0xffff8000u},
{"xvfsub.s",0x75328000u,0xffff8000u},
{"xvfsub.d",0x75330000u,0xffff8000u},
{"xvfmul.s",0x75388000u,0xffff8000u},
{"xvfmul.d",0x75390000u,0xffff8000u},
{"xvfdiv.s",0x753a8000u,0xffff8000u},
{"xvfdiv.d",0x753b0000u,0xffff8000u},
{"xvfmax.s",0x753c8000u,0xffff8000u},
{"xvfmax.d",0x753d0000u,0xffff8000u},
{"xvfmin.s",0x753e8000u,0xffff8000u},
{"xvfmin.d",0x753f0000u,0xffff8000u},
{"xvfmaxa.s",0x75408000u,0xffff8000u},
{"xvfmaxa.d",0x75410000u,0xffff8000u},
{"xvfmina.s",0x75428000u,0xffff8000u},
{"xvfmina.d",0x75430000u,0xffff8000u},
{"xvfcvt.h.s",0x75460000u,0xffff8000u},
{"xvfcvt.s.d",0x75468000u,0xffff8000u},
{"xvffint.s.l",0x75480000u,0xffff8000u},
{"xvftint.w.d",0x75498000u,0xffff8000u},
{"xvftintrm.w.d",0x754a0000u,0xffff8000u},
{"xvftintrp.w.d",0x754a8000u,0xffff8000u},
{"xvftintrz.w.d",0x754b0000u,0xffff8000u},
{"xvftintrne.w.d",0x754b8000u,0xffff8000u},
{"xvshuf.h",0x757a8000u,0xffff8000u},
{"xvshuf.w",0x757b0000u,0xffff8000u},
{"xvshuf.d",0x757b8000u,0xffff8000u},
{"xvperm.w",0x757d0000u,0xffff8000u},
{"xvseqi.b",0x76800000u,0xffff8000u},
{"xvseqi.h",0x76808000u,0xffff8000u},
{"xvseqi.w",0x76810000u,0xffff8000u},
{"xvseqi.d",0x76818000u,0xffff8000u},
{"xvslei.b",0x76820000u,0xffff8000u},
{"xvslei.h",0x76828000u,0xffff8000u},
{"xvslei.w",0x76830000u,0xffff8000u},
{"xvslei.d",0x76838000u,0xffff8000u},
{"xvslei.bu",0x76840000u,0xffff8000u},
{"xvslei.hu",0x76848000u,0xffff8000u},
{"xvslei.wu",0x76850000u,0xffff8000u},
{"xvslei.du",0x76858000u,0xffff8000u},
{"xvslti.b",0x76860000u,0xffff8000u},
{"xvslti.h",0x76868000u,0xffff8000u},
{"xvslti.w",0x76870000u,0xffff8000u},
{"xvslti.d",0x76878000u,0xffff8000u},
{"xvslti.bu",0x76880000u,0xffff8000u},
{"xvslti.hu",0x76888000u,0xffff8000u},
{"xvslti.wu",0x76890000u,0xffff8000u},
{"xvslti.du",0x76898000u,0xffff8000u},
{"xvaddi.bu",0x768a0000u,0xffff8000u},
{"xvaddi.hu",0x768a8000u,0xffff8000u},
{"xvaddi.wu",0x768b0000u,0xffff8000u},
{"xvaddi.du",0x768b8000u,0xffff8000u},
{"xvsubi.bu",0x768c0000u,0xffff8000u},
{"xvsubi.hu",0x768c8000u,0xffff8000u},
{"xvsubi.wu",0x768d0000u,0xffff8000u},
{"xvsubi.du",0x768d8000u,0xffff8000u},
{"xvbsll.v",0x768e0000u,0xffff8000u},
{"xvbsrl.v",0x768e8000u,0xffff8000u},
{"xvmaxi.b",0x76900000u,0xffff8000u},
{"xvmaxi.h",0x76908000u,0xffff8000u},
{"xvmaxi.w",0x76910000u,0xffff8000u},
{"xvmaxi.d",0x76918000u,0xffff8000u},
{"xvmini.b",0x76920000u,0xffff8000u},
{"xvmini.h",0x76928000u,0xffff8000u},
{"xvmini.w",0x76930000u,0xffff8000u},
{"xvmini.d",0x76938000u,0xffff8000u},
{"xvmaxi.bu",0x76940000u,0xffff8000u},
{"xvmaxi.hu",0x76948000u,0xffff8000u},
{"xvmaxi.wu",0x76950000u,0xffff8000u},
{"xvmaxi.du",0x76958000u,0xffff8000u},
{"xvmini.bu",0x76960000u,0xffff8000u},
{"xvmini.hu",0x76968000u,0xffff8000u},
{"xvmini.wu",0x76970000u,0xffff8000u},
{"xvmini.du",0x76978000u,0xffff8000u},
{"xvfrstpi.b",0x769a0000u,0xffff8000u},
{"xvfrstpi.h",0x769a8000u,0xffff8000u},
{"xvhseli.d",0x769f8000u,0xffff8000u},
{"xvrotri.w",0x76a08000u,0xffff8000u},
{"xvsrlri.w",0x76a48000u,0xffff8000u},
{"xvsrari.w",0x76a88000u,0xffff8000u},
{"xvsllwil.d.w",0x77088000u,0xffff8000u},
{"xvsllwil.du.wu",0x770c8000u,0xffff8000u},
{"xvbitclri.w",0x77108000u,0xffff8000u},
{"xvbitseti.w",0x77148000u,0xffff8000u},
{"xvbitrevi.w",0x77188000u,0xffff8000u},
{"xvsat.w",0x77248000u,0xffff8000u},
{"xvsat.wu",0x77288000u,0xffff8000u},
{"xvslli.w",0x772c8000u,0xffff8000u},
{"xvsrli.w",0x77308000u,0xffff8000u},
{"xvsrai.w",0x77348000u,0xffff8000u},
{"xvsrlni.h.w",0x77408000u,0xffff8000u},
{"xvsrlrni.h.w",0x77448000u,0xffff8000u},
{"xvssrlni.h.w",0x77488000u,0xffff8000u},
{"xvssrlni.hu.w",0x774c8000u,0xffff8000u},
{"xvssrlrni.h.w",0x77508000u,0xffff8000u},
{"xvssrlrni.hu.w",0x77548000u,0xffff8000u},
{"xvsrani.h.w",0x77588000u,0xffff8000u},
{"xvsrarni.h.w",0x775c8000u,0xffff8000u},
{"xvssrani.h.w",0x77608000u,0xffff8000u},
{"xvssrani.hu.w",0x77648000u,0xffff8000u},
{"xvssrarni.h.w",0x77688000u,0xffff8000u},
{"xvssrarni.hu.w",0x776c8000u,0xffff8000u},
{"slli.d",0x00410000u,0xffff0000u},
{"srli.d",0x00450000u,0xffff0000u},
{"srai.d",0x00490000u,0xffff0000u},
{"rotri.d",0x004d0000u,0xffff0000u},
{"rcri.d",0x00510000u,0xffff0000u},
{"vrotri.d",0x72a10000u,0xffff0000u},
{"vsrlri.d",0x72a50000u,0xffff0000u},
{"vsrari.d",0x72a90000u,0xffff0000u},
{"vbitclri.d",0x73110000u,0xffff0000u},
{"vbitseti.d",0x73150000u,0xffff0000u},
{"vbitrevi.d",0x73190000u,0xffff0000u},
{"vsat.d",0x73250000u,0xffff0000u},
{"vsat.du",0x73290000u,0xffff0000u},
{"vslli.d",0x732d0000u,0xffff0000u},
{"vsrli.d",0x73310000u,0xffff0000u},
{"vsrai.d",0x73350000u,0xffff0000u},
{"vsrlni.w.d",0x73410000u,0xffff0000u},
{"vsrlrni.w.d",0x73450000u,0xffff0000u},
{"vssrlni.w.d",0x73490000u,0xffff0000u},
{"vssrlni.wu.d",0x734d0000u,0xffff0000u},
{"vssrlrni.w.d",0x73510000u,0xffff0000u},
{"vssrlrni.wu.d",0x73550000u,0xffff0000u},
{"vsrani.w.d",0x73590000u,0xffff0000u},
{"vsrarni.w.d",0x735d0000u,0xffff0000u},
{"vssrani.w.d",0x73610000u,0xffff0000u},
{"vssrani.wu.d",0x73650000u,0xffff0000u},
{"vssrarni.w.d",0x73690000u,0xffff0000u},
{"vssrarni.wu.d",0x736d0000u,0xffff0000u},
{"xvrotri.d",0x76a10000u,0xffff0000u},
{"xvsrlri.d",0x76a50000u,0xffff0000u},
{"xvsrari.d",0x76a90000u,0xffff0000u},
{"xvbitclri.d",0x77110000u,0xffff0000u},
{"xvbitseti.d",0x77150000u,0xffff0000u},
{"xvbitrevi.d",0x77190000u,0xffff0000u},
{"xvsat.d",0x77250000u,0xffff0000u},
{"xvsat.du",0x77290000u,0xffff0000u},
{"xvslli.d",0x772d0000u,0xffff0000u},
{"xvsrli.d",0x77310000u,0xffff0000u},
{"xvsrai.d",0x77350000u,0xffff0000u},
{"xvsrlni.w.d",0x77410000u,0xffff0000u},
{"xvsrlrni.w.d",0x77450000u,0xffff0000u},
{"xvssrlni.w.d",0x77490000u,0xffff0000u},
{"xvssrlni.wu.d",0x774d0000u,0xffff0000u},
{"xvssrlrni.w.d",0x77510000u,0xffff0000u},
{"xvssrlrni.wu.d",0x77550000u,0xffff0000u},
{"xvsrani.w.d",0x77590000u,0xffff0000u},
{"xvsrarni.w.d",0x775d0000u,0xffff0000u},
{"xvssrani.w.d",0x77610000u,0xffff0000u},
{"xvssrani.wu.d",0x77650000u,0xffff0000u},
{"xvssrarni.w.d",0x77690000u,0xffff0000u},
{"xvssrarni.wu.d",0x776d0000u,0xffff0000u},
{"alsl.w",0x00040000u,0xfffe0000u},
{"alsl.wu",0x00060000u,0xfffe0000u},
{"bytepick.w",0x00080000u,0xfffe0000u},
{"alsl.d",0x002c0000u,0xfffe0000u},
{"vsrlni.d.q",0x73420000u,0xfffe0000u},
{"vsrlrni.d.q",0x73460000u,0xfffe0000u},
{"vssrlni.d.q",0x734a0000u,0xfffe0000u},
{"vssrlni.du.q",0x734e0000u,0xfffe0000u},
{"vssrlrni.d.q",0x73520000u,0xfffe0000u},
{"vssrlrni.du.q",0x73560000u,0xfffe0000u},
{"vsrani.d.q",0x735a0000u,0xfffe0000u},
{"vsrarni.d.q",0x735e0000u,0xfffe0000u},
{"vssrani.d.q",0x73620000u,0xfffe0000u},
{"vssrani.du.q",0x73660000u,0xfffe0000u},
{"vssrarni.d.q",0x736a0000u,0xfffe0000u},
{"vssrarni.du.q",0x736e0000u,0xfffe0000u},
{"xvsrlni.d.q",0x77420000u,0xfffe0000u},
{"xvsrlrni.d.q",0x77460000u,0xfffe0000u},
{"xvssrlni.d.q",0x774a0000u,0xfffe0000u},
{"xvssrlni.du.q",0x774e0000u,0xfffe0000u},
{"xvssrlrni.d.q",0x77520000u,0xfffe0000u},
{"xvssrlrni.du.q",0x77560000u,0xfffe0000u},
{"xvsrani.d.q",0x775a0000u,0xfffe0000u},
{"xvsrarni.d.q",0x775e0000u,0xfffe0000u},
{"xvssrani.d.q",0x77620000u,0xfffe0000u},
{"xvssrani.du.q",0x77660000u,0xfffe0000u},
{"xvssrarni.d.q",0x776a0000u,0xfffe0000u},
{"xvssrarni.du.q",0x776e0000u,0xfffe0000u},
{"bytepick.d",0x000c0000u,0xfffc0000u},
{"x86settag",0x00580000u,0xfffc0000u},
{"lddir",0x06400000u,0xfffc0000u},
{"fsel",0x0d000000u,0xfffc0000u},
{"vextrins.d",0x73800000u,0xfffc0000u},
{"vextrins.w",0x73840000u,0xfffc0000u},
{"vextrins.h",0x73880000u,0xfffc0000u},
{"vextrins.b",0x738c0000u,0xfffc0000u},
{"vshuf4i.b",0x73900000u,0xfffc0000u},
{"vshuf4i.h",0x73940000u,0xfffc0000u},
{"vshuf4i.w",0x73980000u,0xfffc0000u},
{"vshuf4i.d",0x739c0000u,0xfffc0000u},
{"vbitseli.b",0x73c40000u,0xfffc0000u},
{"vandi.b",0x73d00000u,0xfffc0000u},
{"vori.b",0x73d40000u,0xfffc0000u},
{"vxori.b",0x73d80000u,0xfffc0000u},
{"vnori.b",0x73dc0000u,0xfffc0000u},
{"vldi",0x73e00000u,0xfffc0000u},
{"vpermi.w",0x73e40000u,0xfffc0000u},
{"xvextrins.d",0x77800000u,0xfffc0000u},
{"xvextrins.w",0x77840000u,0xfffc0000u},
{"xvextrins.h",0x77880000u,0xfffc0000u},
{"xvextrins.b",0x778c0000u,0xfffc0000u},
{"xvshuf4i.b",0x77900000u,0xfffc0000u},
{"xvshuf4i.h",0x77940000u,0xfffc0000u},
{"xvshuf4i.w",0x77980000u,0xfffc0000u},
{"xvshuf4i.d",0x779c0000u,0xfffc0000u},
{"xvbitseli.b",0x77c40000u,0xfffc0000u},
{"xvandi.b",0x77d00000u,0xfffc0000u},
{"xvori.b",0x77d40000u,0xfffc0000u},
{"xvxori.b",0x77d80000u,0xfffc0000u},
{"xvnori.b",0x77dc0000u,0xfffc0000u},
{"xvldi",0x77e00000u,0xfffc0000u},
{"xvpermi.w",0x77e40000u,0xfffc0000u},
{"xvpermi.d",0x77e80000u,0xfffc0000u},
{"xvpermi.q",0x77ec0000u,0xfffc0000u},
{"csrrd",0x04000000u,0xff0003e0u},
{"csrwr",0x04000020u,0xff0003e0u},
{"gcsrrd",0x05000000u,0xff0003e0u},
{"gcsrwr",0x05000020u,0xff0003e0u},
{"vldrepl.d",0x30100000u,0xfff80000u},
{"vstelm.d",0x31100000u,0xfff80000u},
{"xvldrepl.d",0x32100000u,0xfff80000u},
{"bstrins.w",0x00600000u,0xffe08000u},
{"bstrpick.w",0x00608000u,0xffe08000u},
{"fmadd.s",0x08100000u,0xfff00000u},
{"fmadd.d",0x08200000u,0xfff00000u},
{"fmsub.s",0x08500000u,0xfff00000u},
{"fmsub.d",0x08600000u,0xfff00000u},
{"fnmadd.s",0x08900000u,0xfff00000u},
{"fnmadd.d",0x08a00000u,0xfff00000u},
{"fnmsub.s",0x08d00000u,0xfff00000u},
{"fnmsub.d",0x08e00000u,0xfff00000u},
{"vfmadd.s",0x09100000u,0xfff00000u},
{"vfmadd.d",0x09200000u,0xfff00000u},
{"vfmsub.s",0x09500000u,0xfff00000u},
{"vfmsub.d",0x09600000u,0xfff00000u},
{"vfnmadd.s",0x09900000u,0xfff00000u},
{"vfnmadd.d",0x09a00000u,0xfff00000u},
{"vfnmsub.s",0x09d00000u,0xfff00000u},
{"vfnmsub.d",0x09e00000u,0xfff00000u},
{"xvfmadd.s",0x0a100000u,0xfff00000u},
{"xvfmadd.d",0x0a200000u,0xfff00000u},
{"xvfmsub.s",0x0a500000u,0xfff00000u},
{"xvfmsub.d",0x0a600000u,0xfff00000u},
{"xvfnmadd.s",0x0a900000u,0xfff00000u},
{"xvfnmadd.d",0x0aa00000u,0xfff00000u},
{"xvfnmsub.s",0x0ad00000u,0xfff00000u},
{"xvfnmsub.d",0x0ae00000u,0xfff00000u},
{"vbitsel.v",0x0d100000u,0xfff00000u},
{"xvbitsel.v",0x0d200000u,0xfff00000u},
{"vshuf.b",0x0d500000u,0xfff00000u},
{"xvshuf.b",0x0d600000u,0xfff00000u},
{"vldrepl.w",0x30200000u,0xfff00000u},
{"vstelm.w",0x31200000u,0xfff00000u},
{"xvldrepl.w",0x32200000u,0xfff00000u},
{"xvstelm.d",0x33100000u,0xfff00000u},
{"vldrepl.h",0x30400000u,0xffe00000u},
{"vstelm.h",0x31400000u,0xffe00000u},
{"xvldrepl.h",0x32400000u,0xffe00000u},
{"xvstelm.w",0x33200000u,0xffe00000u},
{"jiscr0",0x48000200u,0xfc0003e0u},
{"jiscr1",0x48000300u,0xfc0003e0u},
{"bstrins.d",0x00800000u,0xffc00000u},
{"bstrpick.d",0x00c00000u,0xffc00000u},
{"slti",0x02000000u,0xffc00000u},
{"sltui",0x02400000u,0xffc00000u},
{"addi.w",0x02800000u,0xffc00000u},
{"addi.d",0x02c00000u,0xffc00000u},
{"lu52i.d",0x03000000u,0xffc00000u},
{"andi",0x03400000u,0xffc00000u},
{"ori",0x03800000u,0xffc00000u},
{"xori",0x03c00000u,0xffc00000u},
{"cacop",0x06000000u,0xffc00000u},
{"ld.b",0x28000000u,0xffc00000u},
{"ld.h",0x28400000u,0xffc00000u},
{"ld.w",0x28800000u,0xffc00000u},
{"ld.d",0x28c00000u,0xffc00000u},
{"st.b",0x29000000u,0xffc00000u},
{"st.h",0x29400000u,0xffc00000u},
{"st.w",0x29800000u,0xffc00000u},
{"st.d",0x29c00000u,0xffc00000u},
{"ld.bu",0x2a000000u,0xffc00000u},
{"ld.hu",0x2a400000u,0xffc00000u},
{"ld.wu",0x2a800000u,0xffc00000u},
{"preld",0x2ac00000u,0xffc00000u},
{"fld.s",0x2b000000u,0xffc00000u},
{"fst.s",0x2b400000u,0xffc00000u},
{"fld.d",0x2b800000u,0xffc00000u},
{"fst.d",0x2bc00000u,0xffc00000u},
{"vld",0x2c000000u,0xffc00000u},
{"vst",0x2c400000u,0xffc00000u},
{"xvld",0x2c800000u,0xffc00000u},
{"xvst",0x2cc00000u,0xffc00000u},
{"ldl.w",0x2e000000u,0xffc00000u},
{"ldr.w",0x2e400000u,0xffc00000u},
{"ldl.d",0x2e800000u,0xffc00000u},
{"ldr.d",0x2ec00000u,0xffc00000u},
{"stl.w",0x2f000000u,0xffc00000u},
{"str.w",0x2f400000u,0xffc00000u},
{"stl.d",0x2f800000u,0xffc00000u},
{"str.d",0x2fc00000u,0xffc00000u},
{"vldrepl.b",0x30800000u,0xffc00000u},
{"vstelm.b",0x31800000u,0xffc00000u},
{"xvldrepl.b",0x32800000u,0xffc00000u},
{"xvstelm.h",0x33400000u,0xffc00000u},
{"xvstelm.b",0x33800000u,0xff800000u},
{"csrxchg",0x04000000u,0xff000000u},
{"gcsrxchg",0x05000000u,0xff000000u},
{"ll.w",0x20000000u,0xff000000u},
{"sc.w",0x21000000u,0xff000000u},
{"ll.d",0x22000000u,0xff000000u},
{"sc.d",0x23000000u,0xff000000u},
{"ldptr.w",0x24000000u,0xff000000u},
{"stptr.w",0x25000000u,0xff000000u},
{"ldptr.d",0x26000000u,0xff000000u},
{"stptr.d",0x27000000u,0xff000000u},
{"bceqz",0x48000000u,0xfc000300u},
{"bcnez",0x48000100u,0xfc000300u},
{"lu12i.w",0x14000000u,0xfe000000u},
{"lu32i.d",0x16000000u,0xfe000000u},
{"pcaddi",0x18000000u,0xfe000000u},
{"pcalau12i",0x1a000000u,0xfe000000u},
{"pcaddu12i",0x1c000000u,0xfe000000u},
{"pcaddu18i",0x1e000000u,0xfe000000u},
{"addu16i.d",0x10000000u,0xfc000000u},
{"beqz",0x40000000u,0xfc000000u},
{"bnez",0x44000000u,0xfc000000u},
{"jirl",0x4c000000u,0xfc000000u},
{"b",0x50000000u,0xfc000000u},
{"bl",0x54000000u,0xfc000000u},
{"beq",0x58000000u,0xfc000000u},
{"bne",0x5c000000u,0xfc000000u},
{"blt",0x60000000u,0xfc000000u},
{"bge",0x64000000u,0xfc000000u},
{"bltu",0x68000000u,0xfc000000u},
{"bgeu",0x6c000000u,0xfc000000u},
