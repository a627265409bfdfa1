B='butte/src/builder.rs'; V='butte/src/vector.rs'; T='butte/src/vtable.rs'; W='butte/src/vtable_writer.rs'; E='butte/src/endian_scalar.rs'; P='butte/src/primitives.rs'; TB='butte/src/table.rs'; PU='butte/src/push.rs'
REF=[
("grow-loop",[(B,'''            let ptr = (&mut self.owned_buf[..middle]).as_mut_ptr();
            unsafe {
                write_bytes(ptr, 0, middle);
            }
''','''            for b in self.owned_buf[..middle].iter_mut() {
                *b = 0;
            }
''')]),
("grow-within",[(B,'''            let (left, right) = &mut self.owned_buf[..].split_at_mut(middle);
            right.copy_from_slice(left);
''','''            self.owned_buf.copy_within(0..middle, middle);
''')]),
("grow-newvec",[(B,'''        let diff = new_len - old_len;
        self.owned_buf.resize(new_len, 0);
        self.head += diff;

        let ending_active_size = self.used_space();
        debug_assert_eq!(starting_active_size, ending_active_size);

        if new_len == 1 {
            return;
        }

        // calculate the midpoint, and safely copy the old end data to the new
        // end position:
        let middle = new_len / 2;
        {
            let (left, right) = &mut self.owned_buf[..].split_at_mut(middle);
            right.copy_from_slice(left);
        }
        // finally, zero out the old end data.
        {
            let ptr = (&mut self.owned_buf[..middle]).as_mut_ptr();
            unsafe {
                write_bytes(ptr, 0, middle);
            }
        }
''','''        let diff = new_len - old_len;
        let mut bigger = vec![0u8; new_len];
        bigger[diff..].copy_from_slice(&self.owned_buf);
        self.owned_buf = bigger;
        self.head += diff;
        debug_assert_eq!(starting_active_size, self.used_space());
''')]),
("grow-insert",[(B,'''        self.owned_buf.resize(new_len, 0);
        self.head += diff;
''','''        self.owned_buf.extend(std::iter::repeat(0).take(diff));
        self.head += diff;
''')]),
("ensure-loop",[(B,'''        if self.unused_ready_space() >= want {
            return want;
        }

        while self.unused_ready_space() < want {
            self.grow_owned_buf();
        }
        want
''','''        loop {
            if self.unused_ready_space() >= want {
                break;
            }
            self.grow_owned_buf();
        }
        want
''')]),
("ensure-helper",[(B,'''        assert!(
            want <= FLATBUFFERS_MAX_BUFFER_SIZE
                && self.used_space() <= FLATBUFFERS_MAX_BUFFER_SIZE - want,
            "cannot grow buffer beyond 2 gigabytes"
        );
''','''        self.check_limit(want);
'''),(B,'''    fn unused_ready_space(''','''    fn check_limit(&self, want: usize) {
        let total = self.used_space().checked_add(want);
        match total {
            Some(n) if n <= FLATBUFFERS_MAX_BUFFER_SIZE => {}
            _ => panic!("cannot grow buffer beyond 2 gigabytes"),
        }
    }
    #[inline]
    fn unused_ready_space(''')]),
("dup-findmap",[(B,'''        for &revloc in self.written_vtable_revpos.iter().rev() {
            let o = VTable::init(
                &self.owned_buf[..],
                self.head + self.used_space() - revloc as usize,
            );
            if needle == o {
                return Some(revloc);
            }
        }
        None
''','''        self.written_vtable_revpos
            .iter()
            .rev()
            .copied()
            .find(|&revloc| {
                needle
                    == VTable::init(
                        &self.owned_buf[..],
                        self.owned_buf.len() - revloc as usize,
                    )
            })
''')]),
("dup-index",[(B,'''        for &revloc in self.written_vtable_revpos.iter().rev() {
            let o = VTable::init(
                &self.owned_buf[..],
                self.head + self.used_space() - revloc as usize,
            );
            if needle == o {
                return Some(revloc);
            }
        }
        None
''','''        let mut i = self.written_vtable_revpos.len();
        while i > 0 {
            i -= 1;
            let revloc = self.written_vtable_revpos[i];
            let o = VTable::init(
                &self.owned_buf[..],
                self.owned_buf.len() - revloc as usize,
            );
            if o == needle {
                return Some(revloc);
            }
        }
        None
''')]),
("padding-mod",[(B,'''    (!buf_size).wrapping_add(1) & (scalar_size.wrapping_sub(1))
''','''    if scalar_size == 0 {
        return (!buf_size).wrapping_add(1);
    }
    (scalar_size - buf_size % scalar_size) % scalar_size
''')]),
("padding-neg",[(B,'''    (!buf_size).wrapping_add(1) & (scalar_size.wrapping_sub(1))
''','''    buf_size.wrapping_neg() & scalar_size.wrapping_sub(1)
''')]),
("vtlen-fold",[(B,'''    let max_voffset = field_locs.iter().map(|fl| fl.id).max();
    match max_voffset {
        None => field_index_to_field_offset(0) as usize,
        Some(mv) => mv as usize + SIZE_VOFFSET,
    }
''','''    let mut len = field_index_to_field_offset(0) as usize;
    for fl in field_locs {
        len = max(len, fl.id as usize + SIZE_VOFFSET);
    }
    len
''')]),
("vtlen-mapor",[(B,'''    match max_voffset {
        None => field_index_to_field_offset(0) as usize,
        Some(mv) => mv as usize + SIZE_VOFFSET,
    }
''','''    max_voffset.map_or(field_index_to_field_offset(0) as usize, |mv| {
        usize::from(mv) + SIZE_VOFFSET
    })
''')]),
("reset-fill",[(B,'''        {
            let to_clear = self.owned_buf.len() - self.head;
            let ptr = (&mut self.owned_buf[self.head..]).as_mut_ptr();
            unsafe {
                write_bytes(ptr, 0, to_clear);
            }
        }

        self.head''','''        let head = self.head;
        self.owned_buf[head..].iter_mut().for_each(|b| *b = 0);

        self.head''')]),
("fields-index",[(B,'''            for &fl in self.field_locs.iter() {
                let pos''','''            for i in 0..self.field_locs.len() {
                let fl = self.field_locs[i];
                let pos''')]),
("vtable-helper",[(B,'''        {
            let n = self.head + self.used_space() - object_revloc_to_vtable.value() as usize;
            let saw = read_scalar_at::<UOffsetT>(&self.owned_buf, n).expect("Buffer too small");
            debug_assert_eq!(saw, 0xF0F0_F0F0);
            emplace_scalar::<SOffsetT>(
                &mut self.owned_buf[n..n + SIZE_SOFFSET],
                vt_use as SOffsetT - object_revloc_to_vtable.value() as SOffsetT,
            );
        }

        self.field_locs.clear();
''','''        self.patch_vtable_offset(object_revloc_to_vtable, vt_use);
        self.field_locs.clear();
'''),(B,'''    #[inline]
    fn find_duplicate_stored''','''    fn patch_vtable_offset(&mut self, object: WIPOffset<VTableWIPOffset>, vt_use: UOffsetT) {
        let n = self.owned_buf.len() - object.value() as usize;
        let saw = read_scalar_at::<UOffsetT>(&self.owned_buf, n).expect("Buffer too small");
        debug_assert_eq!(saw, 0xF0F0_F0F0);
        let rel = vt_use as SOffsetT - object.value() as SOffsetT;
        emplace_scalar::<SOffsetT>(&mut self.owned_buf[n..], rel);
    }

    #[inline]
    fn find_duplicate_stored''')]),
("finish-match",[(B,'''            // for the size prefix:
            let b = if size_prefixed { SIZE_UOFFSET } else { 0 };
            // for the file identifier (a string that is not zero-terminated):
            let c = if file_identifier.is_some() {
                FILE_IDENTIFIER_LENGTH
            } else {
                0
            };
            a + b + c
''','''            let n = match (size_prefixed, file_identifier) {
                (true, Some(_)) => SIZE_UOFFSET + FILE_IDENTIFIER_LENGTH,
                (true, None) => SIZE_UOFFSET,
                (false, Some(_)) => FILE_IDENTIFIER_LENGTH,
                (false, None) => 0,
            };
            a + n
''')]),
("create-vector-iter",[(B,'''        for i in (0..items.len()).rev() {
            self.push(items[i]);
        }
''','''        for &x in items.iter().rev() {
            self.push(x);
        }
''')]),
("create-vector-while",[(B,'''        for i in (0..items.len()).rev() {
            self.push(items[i]);
        }
''','''        let mut i = items.len();
        while i > 0 {
            i -= 1;
            self.push(items[i]);
        }
''')]),
("strings-collect",[(B,'''        let mut offsets: smallvec::SmallVec<[WIPOffset<&str>; N_SMALLVEC_STRING_VECTOR_CAPACITY]> =
            smallvec::SmallVec::with_capacity(xs.len());
        unsafe {
            offsets.set_len(xs.len());
        }

        // note that this happens in reverse, because the buffer is built back-to-front:
        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i] = o;
        }
        self.create_vector(&offsets[..])
''','''        let mut offsets: Vec<WIPOffset<&str>> = Vec::with_capacity(xs.len());
        for &s in xs.iter().rev() {
            offsets.push(self.create_string(s));
        }
        offsets.reverse();
        self.create_vector(&offsets[..])
''')]),
("str-get",[(V,"""        if end_loc >= buf.len() {
            return Err(Error::OutOfBounds);
        }
        // This is effectively the cell *after* the String len
        if buf[end_loc] != 0 {
            return Err(Error::NonNullTerminatedString);
        }

        let slice = &buf[loc + SIZE_UOFFSET..end_loc];
""","""        match buf.get(end_loc) {
            None => return Err(Error::OutOfBounds),
            Some(&0) => {}
            Some(_) => return Err(Error::NonNullTerminatedString),
        }

        let start = loc + SIZE_UOFFSET;
        let slice = &buf[start..start + len];
"""),(V,"from_utf8(slice).map_err(|_| Error::NonUtf8String)","match from_utf8(slice) {\n            Ok(s) => Ok(s),\n            Err(_) => Err(Error::NonUtf8String),\n        }")]),
("iter-next",[(V,'''        if self.remaining == 0 {
            None
        } else {
            let result = T::follow(self.buf, self.loc);
            self.loc += sz;
            self.remaining -= 1;
            Some(result)
        }
''','''        self.remaining = self.remaining.checked_sub(1)?;
        let at = self.loc;
        self.loc = at + sz;
        Some(T::follow(self.buf, at))
''')]),
("iter-nth",[(V,'''        self.remaining = self.remaining.saturating_sub(n);

        // Note''','''        self.remaining = if n >= self.remaining { 0 } else { self.remaining - n };
        // Note''')]),
("slice-shared",[(V,'''        let buf = self.0;
        let loc = self.1;
        let sz = size_of::<T>();
        debug_assert!(sz > 0);
        let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
        let data_buf = buf
            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
            .ok_or(Error::OutOfBounds)?;
        let ptr = data_buf.as_ptr() as *const T;
        if ptr as usize % align_of::<T>() != 0 {
            return Err(Error::Misaligned);
        }
        let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
        Ok(s)
''','''        follow_slice_helper::<T>(self.0, self.1)
''')]),
("vt-get-match",[(T,'''        if byte_loc as usize >= self.num_bytes()? {
            return Ok(None);
        }
        read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).map(Some)
''','''        let at = usize::from(byte_loc);
        let total = self.num_bytes()?;
        if at < total {
            Ok(Some(read_scalar_at::<VOffsetT>(self.buf, self.loc + at)?))
        } else {
            Ok(None)
        }
''')]),
("vt-bytes",[(T,'''        let len = self.num_bytes()?;
        self.buf
            .get(self.loc..self.loc + len)
            .ok_or(Error::OutOfBounds)
''','''        let len = self.num_bytes()?;
        let end = self.loc + len;
        if end > self.buf.len() {
            return Err(Error::OutOfBounds);
        }
        Ok(&self.buf[self.loc..end])
''')]),
("clear-fill",[(W,'''        let len = self.buf.len();
        let p = self.buf.as_mut_ptr() as *mut u8;
        unsafe {
            write_bytes(p, 0, len);
        }
''','''        for b in self.buf.iter_mut() {
            *b = 0;
        }
'''),(W,'use std::ptr::write_bytes;\n','')]),
("read-split",[(E,'''    let sz = size_of::<T>();

    let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
    let x = unsafe { p.read_unaligned() };

    Ok(x.from_little_endian())
''','''    let sz = size_of::<T>();
    if s.len() < sz {
        return Err(Error::OutOfBounds);
    }
    let x = unsafe { std::ptr::read_unaligned(s.as_ptr() as *const T) };
    Ok(T::from_little_endian(x))
''')]),
("fwd-readat",[(P,'''        let off = {
            let slice = buf.get(loc..loc + SIZE_UOFFSET).ok_or(Error::OutOfBounds)?;
            read_scalar::<u32>(slice)? as usize
        };
        T::follow(buf, loc + off)
''','''        let off = read_scalar_at::<UOffsetT>(buf, loc)?;
        T::follow(buf, off as usize + loc)
''')]),
("back-checked",[(P,'''        let target = loc as i64 - i64::from(off);
        if target < 0 {
            return Err(Error::OutOfBounds);
        }
        T::follow(buf, target as usize)
''','''        let target = if off >= 0 {
            loc.checked_sub(off as usize)
        } else {
            loc.checked_add(i64::from(off).abs() as usize)
        };
        T::follow(buf, target.ok_or(Error::OutOfBounds)?)
''')]),
("table-match",[(TB,'''        let v_offset = self.vtable()?.get(slot_byte_loc)?;
        if let Some(v_offset) = v_offset {
            let offset = v_offset as usize;
            if offset == 0 {
                return Ok(default);
            }
            <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)
''','''        let vtable = self.vtable()?;
        if let Some(v_offset) = vtable.get(slot_byte_loc)? {
            match v_offset {
                0 => return Ok(default),
                n => {
                    let at = self.loc + usize::from(n);
                    let v = T::follow(self.buf.as_ref(), at)?;
                    Ok(Some(v))
                }
            }
''')]),
("emplace-slice",[(E,'''    let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
    let val = x.to_little_endian();
    unsafe {
        mut_ptr.write_unaligned(val);
    }
''','''    assert!(s.len() >= sz);
    let val = x.to_little_endian();
    unsafe {
        std::ptr::copy_nonoverlapping(&val as *const T as *const u8, s.as_mut_ptr(), sz);
    }
''')]),
("wip-push",[(P,'''        let n = (SIZE_UOFFSET + rest.len() - self.value() as usize) as UOffsetT;
        emplace_scalar::<UOffsetT>(dst, n);
''','''        let here = rest.len() + SIZE_UOFFSET;
        let target = self.value() as usize;
        let distance = here - target;
        distance_push(dst, distance as UOffsetT);
'''),(P,'''impl<T> Push for WIPOffset<T> {''','''fn distance_push(dst: &mut [u8], n: UOffsetT) {
    emplace_scalar::<UOffsetT>(dst, n);
}
impl<T> Push for WIPOffset<T> {''')]),
("push-reorder",[(B,'''        let sz = P::size();
        self.align(sz, P::alignment());
        self.make_space(sz);
        {
            let (dst, rest) = (&mut self.owned_buf[self.head..]).split_at_mut(sz);
            x.push(dst, rest);
        }
''','''        let sz = P::size();
        self.align(sz, P::alignment());
        let at = self.make_space(sz);
        let (_, tail) = self.owned_buf.split_at_mut(at);
        let (dst, rest) = tail.split_at_mut(sz);
        x.push(dst, rest);
''')]),
("required-match",[(B,'''        let o = tab
            .vtable()
            .expect("Could not get VTable")
            .get(slot_byte_loc)
            .expect("Could not get byte loc")
            .expect("No value at byte loc") as usize;
        assert!(o != 0, "missing required field {}", assert_msg_name);
''','''        let vt = tab.vtable().expect("Could not get VTable");
        match vt.get(slot_byte_loc).expect("Could not get byte loc") {
            Some(o) if o != 0 => {}
            _ => panic!("missing required field {}", assert_msg_name),
        }
''')]),
("endtable-order",[(B,'''        let o = self.write_vtable(off);

        self.nested = false;
        self.field_locs.clear();
''','''        let o = self.write_vtable(off);
        self.field_locs.truncate(0);
        self.nested = !self.nested;
''')]),
]
