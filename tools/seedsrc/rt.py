S='butte/src/'
BUGS=[
dict(id='r01-string-end',property='C03',also=['C02'],edits=[(S+'vector.rs','if end_loc >= buf.len() {','if end_loc > buf.len() {')],
 needs='a string whose last byte is the last byte of the buffer (no room for the terminator)',breaks='reading such a string panics instead of returning OutOfBounds',
 main='''use butte::*; fn main(){ let b=[2u8,0,0,0,b'h',b'i']; assert!(matches!(<&str as Follow>::follow(&b[..],0),Err(_))); }'''),
dict(id='r02-nth-back',property='C04',edits=[(S+'vector.rs','''    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.remaining = self.remaining.saturating_sub(n);
        self.next_back()''','''    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.remaining {
            return None;
        }
        self.remaining -= n;
        self.next_back()''')],
 needs='nth_back past the start, then further use of the iterator',breaks='an exhausted iterator still yields elements',
 main='''use butte::*; fn main(){ let b=[3u8,0,0,0,1,2,3]; let v=Vector::<u8>::new(&b[..],0); let mut it=v.iter(); assert!(it.nth_back(5).is_none()); assert!(it.next().is_none()); assert_eq!(it.len(),0); }'''),
dict(id='r03-vtable-get',property='C05',edits=[(S+'vtable.rs','if byte_loc as usize >= self.num_bytes()? {','if byte_loc as usize & 0xff >= self.num_bytes()? {')],
 needs='a slot of 256 or more that is beyond the vtable',breaks='the slot number is truncated and another field is read',
 main="""use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); b.push(0x0404_0404_0404u64); for _ in 0..40 {b.push(0x0404_0404_0404_0404u64);} let t=b.start_table(); b.push_slot_always(4,7u32); let o=b.end_table(t); b.finish_minimal(o); let t=Table::get_root(b.finished_data()).unwrap(); assert_eq!(t.get::<u32>(256,None),Ok(None)); }"""),
dict(id='r04-swallow',property='C06',edits=[(S+'table.rs','let v_offset = self.vtable()?.get(slot_byte_loc)?;','let v_offset = self.vtable()?.get(slot_byte_loc).unwrap_or(None);')],
 needs='a table whose vtable lies outside the buffer',breaks='a truncated buffer reads as defaults instead of an error',
 main='''use butte::*; fn main(){ let b=[4u8,0,0,0,0,0,0,0x80]; let t=Table::new(&b[..],4); assert!(t.get::<u32>(4,Some(3)).is_err()); }'''),
dict(id='r05-grow-zero',property='C11',also=['C09'],edits=[(S+'builder.rs','write_bytes(ptr, 0, middle);','write_bytes(ptr, 0, if middle > 1024 { middle - 1 } else { middle });')],
 needs='growth followed by padding that falls on the stale quarter',breaks='padding is not zero after growth',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new_with_capacity(2049); for _ in 0..2049 { b.push(0xffu8); } b.push(0u64); assert!(b.unfinished_data()[..15].iter().all(|x|*x==0)); }'''),
dict(id='r06-finish-align',property='C10',also=['C12'],edits=[(S+'builder.rs','            a + b + c\n','            if size_prefixed { a + b } else { a + c }\n')],
 needs='finishing with both a size prefix and a file identifier, 8-byte fields',breaks='size-prefixed buffers with identifier lose alignment',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); b.push_slot_always(4,7u64); let o=b.end_table(t); b.finish_size_prefixed(o,Some("ABCD")); assert_eq!(b.finished_data().len()%8,0); }'''),
dict(id='r07-reset-min-align',property='C11',edits=[(S+'builder.rs','''        self.nested = false;
        self.finished = false;

        self.min_align = 0;
    }''','''        self.nested = false;
        self.finished = false;
    }''')],
 needs='a builder reused after reset with smaller alignment than before',breaks='a reused builder writes different bytes than a new one',
 main='''use butte::*; fn go(b:&mut FlatBufferBuilder)->Vec<u8>{ let t=b.start_table(); b.push_slot_always(4,7u8); let o=b.end_table(t); b.finish_minimal(o); b.finished_data().to_vec() }
fn main(){ let mut b=FlatBufferBuilder::new(); b.push(1u64); b.reset(); let x=go(&mut b); let y=go(&mut FlatBufferBuilder::new()); assert_eq!(x,y); }'''),
dict(id='r08-vtable-eq',property='C13',edits=[(S+'vtable.rs','''        self.as_bytes() == other.as_bytes()
''','''        match (self.as_bytes(), other.as_bytes()) {
            (Ok(a), Ok(b)) => a.len() == b.len() && a[SIZE_VOFFSET * 2..] == b[SIZE_VOFFSET * 2..],
            _ => false,
        }
''')],
 needs='two tables with the same field offsets but different inline sizes',breaks='tables of different shape share a vtable with the wrong inline size',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); b.push_slot_always(4,7u32); let o1=b.end_table(t); let t=b.start_table(); b.push_slot_always(4,7u32); let o2=b.end_table(t); let d=b.unfinished_data(); let t2=Table::new(d,d.len()-o2.value() as usize); let t1=Table::new(d,d.len()-o1.value() as usize); let (a,c)=(t1.vtable().unwrap().object_inline_num_bytes().unwrap(), t2.vtable().unwrap().object_inline_num_bytes().unwrap()); assert_eq!(a,8); assert_eq!(c,10); }'''),
dict(id='r09-string-nest',property='C14',edits=[(S+'builder.rs','''        self.assert_not_nested(
            "create_vector_direct can not be called when a table or vector is under construction",
        );
''','''        if items.is_empty() {
            self.assert_not_nested(
                "create_vector_direct can not be called when a table or vector is under construction",
            );
        }
''')],
 needs='a nonempty direct vector created while a table is under construction',breaks='nesting is not detected and the table is corrupted',
 main='''use butte::*; fn main(){ let r=std::panic::catch_unwind(||{ let mut b=FlatBufferBuilder::new(); b.start_table(); b.create_vector_direct(&[1u8]); }); assert!(r.is_err()); }'''),
dict(id='r10-bool',property='C07',edits=[(S+'primitives.rs','Ok(read_scalar_at::<u8>(buf, loc)? != 0)','Ok(read_scalar_at::<u8>(buf, loc)? & 1 != 0)')],
 needs='a boolean byte other than 0 and 1, as other writers produce',breaks='such a boolean reads as false',
 main='''use butte::*; fn main(){ assert_eq!(<bool as Follow>::follow(&[2u8][..],0),Ok(true)); }'''),
dict(id='r11-padding',property='C10',also=['C08'],edits=[(S+'builder.rs','''        let elem_size = T::size();
        self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));

        let bytes''','''        let elem_size = T::size();
        self.align(items.len() * elem_size, PushAlignment::new(SIZE_UOFFSET));

        let bytes''')],
 needs='a direct vector of 8-byte elements with an odd number of preceding words',breaks='vector elements are misaligned',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); b.push(1u32); let o=b.create_vector_direct(&[1u64]); assert_eq!((o.value()-4)%8,0); }'''),
dict(id='r12-dup-clear',property='C11',also=['C13'],edits=[(S+'builder.rs','VTableWriter::init(&mut self.owned_buf[vt_start_pos..vt_end_pos]).clear();','VTableWriter::init(&mut self.owned_buf[vt_start_pos..vt_end_pos - SIZE_VOFFSET]).clear();')],
 needs='two tables of equal shape followed by a value that needs padding',breaks='stale vtable bytes appear in padding',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); for _ in 0..2 { let t=b.start_table(); b.push_slot_always(4,7u32); b.push_slot_always(6,7u32); b.end_table(t); } let (v,h)=b.collapse(); assert!(v[..h].iter().all(|x|*x==0)); }'''),
dict(id='r13-limit-cap',property='C15',edits=[(S+'builder.rs','''            size <= FLATBUFFERS_MAX_BUFFER_SIZE,
            "cannot initialize''','''            size <= 2 * FLATBUFFERS_MAX_BUFFER_SIZE,
            "cannot initialize''')],
 needs='a capacity between 2 and 4 GiB',breaks='the 2 GiB limit on the capacity is not enforced',
 main='''use butte::*; fn main(){ let r=std::panic::catch_unwind(||{ FlatBufferBuilder::new_with_capacity((1usize<<31)+1); }); assert!(r.is_err()); }'''),
dict(id='r14-root-finish',property='C12',edits=[(S+'primitives.rs','<SkipSizePrefix<SkipRootOffset','<SkipSizePrefix<SkipRootOffset') if False else (S+'table.rs','<SkipSizePrefix<SkipRootOffset<FileIdentifier>>>::follow(data, 0)?','<SkipRootOffset<FileIdentifier>>::follow(data, SIZE_UOFFSET / 2)?')],
 needs='checking the identifier of a size prefixed buffer',breaks='the identifier is looked for at the wrong place',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); let o=b.end_table(t); b.finish_size_prefixed(o,Some("ABCD")); assert_eq!(buffer_has_identifier(b.finished_data(),"ABCD",true),Ok(true)); }'''),
dict(id='r15-dup-none',property='C08',edits=[(S+'builder.rs','''        Some(mv) => mv as usize + SIZE_VOFFSET,''','''        Some(mv) if mv > 250 => (mv as usize + SIZE_VOFFSET) & !3,
        Some(mv) => mv as usize + SIZE_VOFFSET,''')],
 needs='a table with more than 124 fields whose last field has an even index',breaks='the last field is written outside the vtable',
 main='''use butte::*; fn main(){ let mut b=FlatBufferBuilder::new(); let t=b.start_table(); b.push_slot_always(256,7u32); let o=b.end_table(t); b.finish_minimal(o); let t=Table::get_root(b.finished_data()).unwrap(); assert_eq!(t.get::<u32>(256,None),Ok(Some(7))); }'''),
dict(id='r16-safe-slice',property='C01',also=['C04'],edits=[(S+'vector.rs','''        let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
        let data_buf = buf
            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
            .ok_or(Error::OutOfBounds)?;
        let ptr = data_buf.as_ptr() as *const T;
        if ptr as usize % align_of::<T>() != 0 {
            return Err(Error::Misaligned);
        }
        let s: &'a [T]''','''        let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
        let data_buf = buf
            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET * 2 + len * sz - SIZE_UOFFSET - len % 2)
            .ok_or(Error::OutOfBounds)?;
        let ptr = data_buf.as_ptr() as *const T;
        if ptr as usize % align_of::<T>() != 0 {
            return Err(Error::Misaligned);
        }
        let s: &'a [T]''')],
 needs='a truncated vector with an odd element count',breaks='a slice view reaches one byte past the buffer',
 main='''use butte::*; fn main(){ let b=[3u8,0,0,0,1,2]; assert!(Vector::<u8>::new(&b[..],0).safe_slice().is_err()); }'''),
]
