S='butte/src/'
BUGS=[
dict(id='s01-recent-vtables',property='C13',edits=[(S+'builder.rs','for &revloc in self.written_vtable_revpos.iter().rev() {','for &revloc in self.written_vtable_revpos.iter().rev().take(8) {')],
 needs='more than eight different table shapes between two equal ones',breaks='equal shapes no longer share a vtable',
 main='''use butte::*; fn t(b:&mut FlatBufferBuilder,s:u16){ let t=b.start_table(); b.push_slot_always(s,7u32); b.end_table(t); } fn main(){ let mut b=FlatBufferBuilder::new(); for i in 0..12 { t(&mut b,4+2*i); } let n=b.num_written_vtables(); t(&mut b,4); assert_eq!(b.num_written_vtables(),n); }'''),
dict(id='s02-ident-case',property='C12',edits=[(S+'table.rs','Ok(ident.as_bytes() == got)','Ok(ident.as_bytes().eq_ignore_ascii_case(got))')],
 needs='identifiers that differ in case',breaks='another identifier is recognised',
 main='''use butte::*; fn main(){ assert_eq!(buffer_has_identifier(&[0,0,0,0,b'a',b'B',b'c',b'd'],"abcd",false),Ok(false)); }'''),
dict(id='s03-ident-nul',property='C12',edits=[(S+'table.rs','Ok(ident.as_bytes() == got)','Ok(got.starts_with(ident.trim_end().as_bytes()))')],
 needs='an identifier that ends in a space',breaks='it is recognised in a buffer with another last character',
 main='''use butte::*; fn main(){ assert_eq!(buffer_has_identifier(&[0,0,0,0,b'a',b'b',b'c',b'd'],"abc ",false),Ok(false)); }'''),
dict(id='s04-nan',property='C07',edits=[(S+'endian_scalar.rs','''impl EndianScalar for f32 {
    /// Convert f32 from host endian-ness to little-endian.
    #[inline]
    fn to_little_endian(self) -> Self {
        #[cfg(target_endian = "little")]
        {
            self
        }''','''impl EndianScalar for f32 {
    /// Convert f32 from host endian-ness to little-endian.
    #[inline]
    fn to_little_endian(self) -> Self {
        #[cfg(target_endian = "little")]
        {
            if self.is_nan() {
                std::f32::NAN
            } else {
                self
            }
        }''')],
 needs='a NaN with a payload or sign',breaks='its bits are not written',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); b.push(f32::from_bits(0xffc0_1234)); assert_eq!(b.unfinished_data(),&[0x34,0x12,0xc0,0xff]); }'''),
dict(id='s05-negzero',property='C07',edits=[(S+'endian_scalar.rs','''impl EndianScalar for f64 {
    /// Convert f64 from host endian-ness to little-endian.
    #[inline]
    fn to_little_endian(self) -> Self {
        #[cfg(target_endian = "little")]
        {
            self
        }''','''impl EndianScalar for f64 {
    /// Convert f64 from host endian-ness to little-endian.
    #[inline]
    fn to_little_endian(self) -> Self {
        #[cfg(target_endian = "little")]
        {
            if self == 0.0 {
                0.0
            } else {
                self
            }
        }''')],
 needs='negative zero',breaks='its sign is lost',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); b.push(-0.0f64); assert_eq!(b.unfinished_data()[7],0x80); }'''),
dict(id='s06-interior-nul',property='C03',edits=[(S+'vector.rs','''        let slice = &buf[loc + SIZE_UOFFSET..end_loc];
''','''        let slice = &buf[loc + SIZE_UOFFSET..end_loc];
        if slice.contains(&0) {
            return Err(Error::NonNullTerminatedString);
        }
''')],
 needs='a string that contains a zero byte',breaks='a valid string is rejected',
 main='''use butte::*; fn main(){ let b=[3u8,0,0,0,b'a',0,b'b',0]; assert_eq!(<&str as Follow>::follow(&b[..],0),Ok("a\\0b")); }'''),
dict(id='s07-utf8',property='C03',also=['C01'],edits=[(S+'vector.rs','''        from_utf8(slice).map_err(|_| Error::NonUtf8String)''','''        if slice.len() < 2 {
            return Ok(unsafe { std::str::from_utf8_unchecked(slice) });
        }
        from_utf8(slice).map_err(|_| Error::NonUtf8String)''')],
 needs='a string of one byte that is not ASCII',breaks='an invalid string is returned',
 main='''use butte::*; fn main(){ let b=[1u8,0,0,0,0xff,0]; assert!(<&str as Follow>::follow(&b[..],0).is_err()); }'''),
dict(id='s08-index',property='C04',also=['C02'],edits=[(S+'vector.rs','T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)','T::follow(self.0, self.1 as usize + SIZE_UOFFSET + (sz * idx) as u32 as usize)')],
 needs='an element further than 4 GiB into a vector',breaks='another element is read',
 main='''use butte::*; fn main(){ let n:usize=(1<<29)+2; let mut v=vec![0u8;4+8*n]; v[..4].copy_from_slice(&(n as u32).to_le_bytes()); v[4]=9; let x=Vector::<u64>::new(&v[..],0); assert_eq!(x.get(1<<29),Ok(0)); }'''),
dict(id='s09-strings',property='C08',edits=[(S+'builder.rs','''        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i] = o;
        }''','''        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i % (2 * N_SMALLVEC_STRING_VECTOR_CAPACITY)] = o;
        }''')],
 needs='a vector of more than 32 strings',breaks='strings are mixed up',
 main='''use butte::*; fn main(){ let s:Vec<String>=(0..40).map(|i|i.to_string()).collect(); let r:Vec<&str>=s.iter().map(|x|&x[..]).collect(); let mut b=FlatBufferBuilder::new(); let o=b.create_vector_of_strings(&r); let d=b.unfinished_data(); let v=Vector::<ForwardsUOffset<&str>>::new(d,d.len()-o.value() as usize); for i in 0..40 { assert_eq!(v.get(i),Ok(r[i])); } }'''),
dict(id='s10-max-slot',property='C08',edits=[(S+'builder.rs','let max_voffset = field_locs.iter().map(|fl| fl.id).max();','let max_voffset = field_locs.iter().map(|fl| fl.id).max_by_key(|id| *id as u8);')],
 needs='a table with a slot of 256 or more and a smaller one',breaks='the vtable is too short and writing panics',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); b.push_slot_always(256,7u32); b.push_slot_always(4,7u32); b.end_table(t); }'''),
dict(id='s11-soffset',property='C05',also=['C02'],edits=[(S+'primitives.rs','T::follow(buf, loc + off)\n    }\n}\n\nimpl<\'a, T> FollowBuf','T::follow(buf, loc.max(off) + loc.min(off & 0x7fff_ffff))\n    }\n}\n\nimpl<\'a, T> FollowBuf')],
 needs='an offset with the highest bit set that is smaller than the location',breaks='it leads elsewhere',
 main='''use butte::*; fn main(){ let n:usize=0x8000_0010+64; let mut v=vec![0u8;n]; let l=0x20; v[l..l+4].copy_from_slice(&0x8000_0000u32.to_le_bytes()); v[l+0x8000_0000]=7; assert_eq!(<ForwardsUOffset<u8>>::follow(&v[..],l),Ok(7)); let _=n; }'''),
dict(id='s12-vtable-cap',property='C08',edits=[(S+'builder.rs','            let n = self.head + self.used_space() - object_revloc_to_vtable.value() as usize;','            let n = self.owned_buf.len() - (object_revloc_to_vtable.value() & 0x00ff_ffff) as usize;')],
 needs='a table at more than 16 MiB from the end of the buffer',breaks='the offset to its vtable is written elsewhere',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let v=vec![1u8;1<<24]; b.create_vector_direct(&v); let t=b.start_table(); b.push_slot_always(4,7u32); let o=b.end_table(t); let d=b.unfinished_data(); let t=Table::new(d,d.len()-o.value() as usize); assert_eq!(t.get::<u32>(4,None),Ok(Some(7))); }'''),
dict(id='s13-dirty-direct',property='C08',edits=[(S+'builder.rs','''        self.push_bytes_unprefixed(bytes);
        self.push(items.len() as UOffsetT);
''','''        if bytes.len() > 4096 && self.unused_ready_space() >= bytes.len() {
            self.head -= bytes.len();
            let (n, len) = (self.head, bytes.len());
            self.owned_buf[n..n + len / 8 * 8].copy_from_slice(&bytes[..len / 8 * 8]);
        } else {
            self.push_bytes_unprefixed(bytes);
        }
        self.push(items.len() as UOffsetT);
''')],
 needs='a direct vector of more than 4096 bytes whose length is no multiple of eight, with room left',breaks='its last bytes are lost',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new_with_capacity(10000); let v=vec![1u8;4101]; let o=b.create_vector_direct(&v); let d=b.unfinished_data(); assert_eq!(Vector::<u8>::new(d,d.len()-o.value() as usize).safe_slice().unwrap(),&v[..]); }'''),
dict(id='s14-required',property='C14',edits=[(S+'builder.rs','''            .expect("No value at byte loc") as usize;''','''            .unwrap_or(slot_byte_loc) as usize;''')],
 needs='a required field in a slot beyond the vtable',breaks='its absence is not detected',
 main='''use butte::*; fn main(){ let r=std::panic::catch_unwind(||{ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); b.push_slot_always(4,1u32); let o=b.end_table(t); b.required(o,8,"x"); }); assert!(r.is_err()); }'''),
dict(id='s15-iter-len',property='C04',also=['C06'],edits=[(S+'vector.rs','let len = self.len().unwrap_or(0);','let len = self.len().unwrap_or(0).min(self.0.len());')],
 needs='a vector whose stored length exceeds the size of the buffer',breaks='iteration stops early without an error',
 main='''use butte::*; fn main(){ let b=[100u8,0,0,0,1,2]; assert_eq!(Vector::<u8>::new(&b[..],0).iter().len(),100); }'''),
dict(id='s16-vtable-odd',property='C05',also=['C06'],edits=[(S+'vtable.rs','if byte_loc as usize >= self.num_bytes()? {','if byte_loc as usize + SIZE_VOFFSET > self.num_bytes()? & !1 {')],
 needs='a vtable of odd length',breaks='',
 main='''use butte::*; fn main(){ let b=[5u8,0,0,0,9,0]; assert_eq!(VTable::init(&b[..],0).get(4),Ok(Some(9))); }'''),
dict(id='s17-finish-twice',property='C14',edits=[(S+'builder.rs','        self.assert_not_finished("buffer cannot be finished when it is already finished");\n','        if !size_prefixed {\n            self.assert_not_finished("buffer cannot be finished when it is already finished");\n        }\n')],
 needs='a finished buffer finished again with a size prefix',breaks='it is not detected',
 main='''use butte::*; fn main(){ let r=std::panic::catch_unwind(||{ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); let o=b.end_table(t); b.finish_minimal(o); b.finish_size_prefixed(o,None); }); assert!(r.is_err()); }'''),
dict(id='s18-reset-dirty',property='C11',edits=[(S+'builder.rs','''            let to_clear = self.owned_buf.len() - self.head;
            let ptr''','''            let to_clear = (self.owned_buf.len() - self.head) & !0xf;
            let ptr''')],
 needs='a reset of data whose length is no multiple of 16',breaks='stale bytes show up as padding',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new_with_capacity(64); for _ in 0..5 { b.push(0xffu8); } b.reset(); b.push(1u8); b.push(2u32); assert_eq!(b.unfinished_data(),&[2,0,0,0,0,0,0,1]); }'''),
]
