W={
'h264x':[('SPS','quick:o=0..7 thorough:o=0..63'),('SPSHigh','case:cf=1,3 case:sep=0..1 case:o=0'),('SPSScaling','case:li=0,6 case:stop=0,99 case:cf=1'),
 ('AVCCRoundTrip','case:k=1..3 case:l0=1..3 case:l1=1'),('AnnexBRoundTrip','case:k=1..3 case:l0=1..3 case:l1=1'),('EPRRoundTrip','quick:n=0..7 thorough:n=0..10'),('EPRAny','quick:n=4..9 thorough:n=0..14'),('RandomAccess','case:k=0..3 case:empty=-1..0'),('AVCCAny','quick:n=0..10 thorough:n=0..18'),('AnnexBAny','quick:n=0..8 thorough:n=0..11'),('DTSChange','case:chg=0..1 case:kinds=0,4 case:pt=0,2 case:ptsb=20')],
'h265x':[('SPS','quick:o=0..7 thorough:o=0..63'),('PPS','case:o=0..3 case:hb=0..1'),('SPSInter','case:sign=0..1 case:abs=0 case:mask=0..4'),('RandomAccess','case:k=0..3 case:empty=-1..0'),('DTSChange','case:chg=0..1 case:ks=0,4 case:ro=0,1 case:ptsb=20')],
'av1x':[('LEB128','case:pad=0'),('Bitstream','case:a=0,1,2 case:b=-1,0,2 case:c=-1,1 case:sz=0..7'),('Seq','quick:o=0..7 thorough:o=0..63 case:reduced=0..1'),('SeqColor','case:p=0..2 case:depth=0..2 case:mono=0..1 case:desc=0 case:sub=0'),('OBUHeader','case:n=0..2'),('RandomAccess','case:k=0..3 case:empty=-1..0')],
'vidx':[('VP9','case:prof=0..3 case:kind=0..2 case:rgb=0'),('VP9RA','case:n=0..6'),('VP8RA','case:n=0..6'),('MPEG4Video','case:n=0..8 case:mid=0..1'),('DQT','case:n=0..4 case:pre=0,3'),('SOF','case:typ=0,1 case:qt=1,2'),('JPEGRest','case:n=0..12'),('DHT','case:syms=0,3,12')],
'audiox':[('ASC','case:sr=0,3,13 case:ext=0..2 case:core=0..1'),('ASCMarshal','case:ext=0..2 case:core=0..1 case:cfg=0,5'),('PCE','case:f=1,2 case:s=1 case:b=0..1 case:l=1 case:m=0..1'),('RawSkip','case:k=0..4 case:n=1 case:el=0..1'),('ADTS','case:k=0..3 case:sz=0..4'),('MPEG1','case:ver=0 case:br=5 case:lay=1,2'),('AC3Sync','case:fs=0..2'),('AC3BSI','case:acmod=0,2,7'),('EAC3','case:fs=0..3 case:acmod=2,7'),('OpusDur','case:n=0..4'),('OpusID','case:n=0..12'),('FLAC','case:more=0..2'),('G711Decode','case:n=0..3 case:law=0..1',' merge=full'),('G711Order','case:n=0..9 case:law=0..1',' merge=full'),('SMC','quick:o=0..11 thorough:o=0..80'),('AME','quick:o=0..7 thorough:o=0..71 case:cfg=0..2 case:sz=0..2'),('LOAS','case:sz=0..4')],
'tsx':[('OpusAU','case:flags=0..7 case:size=0,3,256 case:ext=0,5'),('OpusDescCode','case:n=1..3'),('OpusDescExplicit','case:ch=1..6,9 case:sm=0..1 case:cm=0..1'),('OpusDescMarshal','case:ch=1..3 case:sc=1..3 case:cc=0..2 case:fam=0,1'),('Cell','case:n=0..3'),('STD',''),('Metadata','case:flags=0..7 case:form=0..3 case:n=0,1,3 case:priv=0,4'),
 ('MuxChunks','case:mix=0..6 case:n=188,1316 case:g=0'),('MuxConfig','case:k=0..3 case:x=3 case:y=0..1')],
'mp4x':[('PartsRoundTrip','quick:shape=4..8 quick:size=0,3 thorough:shape=0..14 thorough:size=0,3'),('InitRoundTrip','quick:codec=0..13 quick:n=1'),('PresOne','case:n=1..2 case:size=1'),('PresTwo','case:n=1 case:m=1..2 case:ts=0'),('PresCodecs','case:codec=0..13 case:n=1'),('SampleH26x','case:codec=0..1 case:k=1..2 case:l=1,3 case:reuse=0 case:api=0..1'),('SampleAV1','case:k=1..2 case:l=1,3 case:reuse=0')],
}
for p,l in W.items():
    s='package %s\n\nimport "github.com/bluenviron/mediacommon/v2/internal/vh/bw"\n'%p
    for e in l:
        n,d=e[0],e[1]; m=e[2] if len(e)>2 else ' merge=conc'
        s+='\n// VH_Pure%s performs VH_%s twice.\n//\n//vh: prop=P41 %s%s unwind=20000 steps=20000000\nfunc VH_Pure%s() {\n\tbw.Twice(VH_%s)\n}\n'%(n,n,d,m,n,n)
    open(p+'/pure.go','w').write(s)
