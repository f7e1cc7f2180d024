#!/usr/bin/env python3
"""Refactorings that keep the behaviour; every check has to stay quiet on them: tools/refs.py WORKERS [ids...]

Each is applied in a scratch copy bound over /repo in a mount namespace, so the real tree is not touched."""
import sys, os, subprocess, threading, queue, time, re
E = 'laby_common/src/internal/escape.rs'; B = 'laby_common/src/internal/buffer.rs'; R = 'laby_common/src/render.rs'; H = 'laby/src/helpers.rs'
CO = 'laby_macros/src/component.rs'; BU = 'laby_macros/src/build.rs'; NO = 'laby_macros/src/node.rs'; MA = 'laby_macros/src/matching.rs'
ESC3 = ['C01', 'C03']
REFS = {
 'e1': (ESC3, [(E, '''                if ptr > start_ptr {
                    let slc = slice::from_raw_parts(start_ptr, ptr as usize - start_ptr as usize);
                    buffer.push_str(core::str::from_utf8_unchecked(slc));
                }
                push_escaped_str(*ESCAPED.get_unchecked(idx), buffer);
                start_ptr = ptr.add(1);
                ptr = ptr.add(1);''', '''                flush(buffer, start_ptr, ptr);
                push_escaped_str(*ESCAPED.get_unchecked(idx), buffer);
                ptr = ptr.add(1);
                start_ptr = ptr;'''),
        (E, '''        start_ptr = proceed(buffer, start_ptr, ptr, end_ptr);

        if end_ptr > start_ptr {
            let slc = slice::from_raw_parts(start_ptr, end_ptr as usize - start_ptr as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
    }
''', '''        start_ptr = proceed(buffer, start_ptr, ptr, end_ptr);
        flush(buffer, start_ptr, end_ptr);
    }

    #[inline]
    unsafe fn flush(buffer: &mut Buffer, from: *const u8, to: *const u8) {
        if to > from {
            let slc = slice::from_raw_parts(from, to as usize - from as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
    }
''')]),
 'e2': (ESC3, [(E, '''        if end_ptr > start_ptr {
            let slc = slice::from_raw_parts(start_ptr, end_ptr as usize - start_ptr as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
    }
}
''', '''        rest(buffer, start_ptr, end_ptr);
    }

    unsafe fn rest(buffer: &mut Buffer, start_ptr: *const u8, end_ptr: *const u8) {
        let len = end_ptr as usize - start_ptr as usize;
        if len > 0 {
            let slc = slice::from_raw_parts(start_ptr, len);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
    }
}
''', -1)]),
 'e3': (['C02'], [(E, '''        let fun = if let Some(features) = features {
            if features.has_avx() && has_avx2 {
                avx2::escape
            } else if features.has_sse2() {
                sse2::escape
            } else {
                fallback::escape
            }
        } else {
            fallback::escape
        };
''', '''        let fun: unsafe fn(&str, &mut Buffer) = match features {
            Some(ref f) if has_avx2 && f.has_avx() => avx2::escape,
            Some(ref f) if f.has_sse2() => sse2::escape,
            _ => fallback::escape,
        };
''')]),
 'e4': (ESC3, [(E, '''    pub unsafe fn escape_small(feed: &str, mut buf: *mut u8) -> usize {
        let mut start_ptr = feed.as_ptr();
        let mut ptr = start_ptr;
        let end_ptr = start_ptr.add(feed.len());
        let buf_begin = buf;

        while ptr < end_ptr {
            debug_assert!(start_ptr <= ptr);
            let idx = *ESCAPE_LUT.get_unchecked(*ptr as usize) as usize;
            debug_assert!(idx <= 9);
            if idx >= ESCAPED_LEN {
                ptr = ptr.add(1);
            } else {
                let escaped = ESCAPED.get_unchecked(idx);
                if ptr > start_ptr {
                    let len = ptr as usize - start_ptr as usize;

                    memcpy_16(start_ptr, buf, len);
                    buf = buf.add(len);
                }
                memcpy_16(escaped.as_ptr(), buf, escaped.len());
                buf = buf.add(escaped.len());
                start_ptr = ptr.add(1);
                ptr = ptr.add(1);
            }
        }

        debug_assert_eq!(ptr, end_ptr);
        debug_assert!(start_ptr <= ptr);

        if end_ptr > start_ptr {
            let len = end_ptr as usize - start_ptr as usize;
            memcpy_16(start_ptr, buf, len);
            buf = buf.add(len);
        }

        buf as usize - buf_begin as usize
    }''', '''    pub unsafe fn escape_small(feed: &str, buf: *mut u8) -> usize {
        let bytes = feed.as_bytes();
        let mut written = 0;
        let mut i = 0;
        while i < bytes.len() {
            let c = bytes[i];
            let idx = ESCAPE_LUT[c as usize] as usize;
            if idx < ESCAPED_LEN {
                let e = ESCAPED[idx];
                memcpy_16(e.as_ptr(), buf.add(written), e.len());
                written += e.len();
            } else {
                buf.add(written).write(c);
                written += 1;
            }
            i += 1;
        }
        written
    }''')]),
 'e5': (ESC3, [(E, '''                mask ^= 1 << trailing_zeros;
                let ptr2''', '''                mask &= mask - 1;
                let ptr2''')]),
 'e6': (ESC3, [(E, '''        while ptr <= end_ptr.sub(USIZE_BYTES) {
            debug_assert_eq!((ptr as usize) % USIZE_BYTES, 0);

            let chunk = *(ptr as *const usize);
            if contains_key(chunk) {
                start_ptr = naive::proceed(buffer, start_ptr, ptr, ptr.add(USIZE_BYTES))
            }
            ptr = ptr.add(USIZE_BYTES);
        }''', '''        let last = end_ptr.sub(USIZE_BYTES);
        loop {
            if ptr > last {
                break;
            }
            let chunk = *(ptr as *const usize);
            let next = ptr.add(USIZE_BYTES);
            if contains_key(chunk) {
                start_ptr = naive::proceed(buffer, start_ptr, ptr, next)
            }
            ptr = next;
        }''')]),
 'e7': (ESC3, [(E, '''        while ptr <= end_ptr.sub(VECTOR_BYTES) {
            let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));
            while mask != 0 {''', '''        let last = end_ptr.sub(VECTOR_BYTES);
        while ptr <= last {
            let chunk = _mm_loadu_si128(ptr as *const __m128i);
            let mut mask = maskgen(chunk);
            while mask > 0 {''')]),
 'b1': (['C04', 'C05', 'C06'], [(B, '''        unsafe {
            // SAFETY: this operation won't overflow because slice cannot exceeds
            // isize::MAX bytes.
            // https://doc.rust-lang.org/reference/behavior-considered-undefined.html
            self.reserve_small(size);

            let p = self.data.add(self.len);
            core::ptr::copy_nonoverlapping(data.as_ptr(), p, size);
            self.len += size;
        }
        debug_assert!(self.len <= self.capacity);
    }
''', '''        unsafe { self.append_raw(data.as_ptr(), size) }
        debug_assert!(self.len <= self.capacity);
    }

    #[inline]
    unsafe fn append_raw(&mut self, src: *const u8, size: usize) {
        self.reserve_small(size);
        let at = self.len;
        core::ptr::copy_nonoverlapping(src, self.data.add(at), size);
        self.len = at + size;
    }
''')]),
 'b2': (['C04', 'C05'], [(B, '''        if n == 0 {
            Self::new()
        } else {
            Self {
                data: safe_alloc(n),
                len: 0,
                capacity: n,
            }
        }''', '''        let mut buf = Self::new();
        if n > 0 {
            buf.data = safe_alloc(n);
            buf.capacity = n;
        }
        buf'''), (B, '''        let new_capacity = core::cmp::max(self.capacity * 2, self.capacity + size);''', '''        let needed = self.capacity + size;
        let doubled = self.capacity * 2;
        let new_capacity = if doubled < needed { needed } else { doubled };''')]),
 'b3': (['C04', 'C05', 'C08'], [(B, '''        unsafe {
            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();
        }''', '''        let mut bytes = [0u8; 4];
        let text: &str = data.encode_utf8(&mut bytes);
        self.push_str(text);''')]),
 'b4': (['C05', 'C04'], [(B, '''        unsafe {
            if self.is_empty() {
                Self::new()
            } else {
                let buf = Self {
                    data: safe_alloc(self.len),
                    len: self.len,
                    capacity: self.len,
                };

                ptr::copy_nonoverlapping(self.data, buf.data, self.len);
                buf
            }
        }''', '''        let mut copy = Self::with_capacity(self.len);
        copy.push_str(self.as_str());
        copy''')]),
 'b5': (['C04', 'C05'], [(B, '''        if size <= self.capacity - self.len {
            return;
        }

        // without''', '''        let free = self.capacity - self.len;
        if free >= size {
            return;
        }
        // without'''), (B, '''        if self.len + size <= self.capacity {
            return;
        }
        self.reserve_internal(size);''', '''        let end = self.len + size;
        if end > self.capacity {
            self.reserve_internal(size);
        }''')]),
 'r1': (['C08', 'C12', 'C09', 'C06'], [(R, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        let entity = match self {
            '<' => "&lt;",
            '>' => "&gt;",
            '&' => "&amp;",
            '"' => "&quot;",
            '\\'' => "&#39;",
            _ => return buffer.push(self),
        };
        buffer.push_str(entity);'''), (R, '''        buffer.push_str(if self { "true" } else { "false" });''', '''        match self {
            true => buffer.push_str("true"),
            false => buffer.push_str("false"),
        }'''), (R, '''                use itoap::Integer;

                // SAFETY: `MAX_LEN < 40` and then does not overflows `isize::MAX`.
                // Also `b.len()` should be always less than or equal to `isize::MAX`.
                unsafe {
                    buffer.reserve_small(Self::MAX_LEN);
                    let ptr = buffer.as_mut_ptr().add(buffer.len());

                    // SAFETY: `MAX_LEN` is always greater than zero, so
                    // `b.as_mut_ptr()` always point to valid block of memory
                    let l = itoap::write_to_ptr(ptr, self);
                    buffer.advance(l);
                }''', '''                write_int(self, buffer)'''), (R, '''macro_rules! impl_int {''', '''#[inline]
fn write_int<I: itoap::Integer>(value: I, buffer: &mut Buffer) {
    buffer.reserve(I::MAX_LEN);
    unsafe {
        let at = buffer.as_mut_ptr().add(buffer.len());
        let written = itoap::write_to_ptr(at, value);
        buffer.advance(written);
    }
}

macro_rules! impl_int {''')]),
 'r2': (['C07'], [(R, '''                if self.is_finite() {
                    unsafe {
                        buffer.reserve_small($min);
                        let ptr = buffer.as_mut_ptr().add(buffer.len());
                        let l = $fn(self, ptr);
                        buffer.advance(l);
                    }
                } else if self.is_nan() {
                    buffer.push_str("NaN");
                } else if self > 0.0 {
                    buffer.push_str("inf");
                } else {
                    buffer.push_str("-inf");
                }''', '''                if self.is_nan() {
                    buffer.push_str("NaN");
                    return;
                }
                if self.is_infinite() {
                    buffer.push_str(if self.is_sign_negative() { "-inf" } else { "inf" });
                    return;
                }
                unsafe {
                    buffer.reserve_small($min);
                    let ptr = buffer.as_mut_ptr().add(buffer.len());
                    buffer.advance($fn(self, ptr));
                }''')]),
 'r3': (['C10'], [(H, '''        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }''', '''        let mut first = true;
        while let Some(item) = iter.next() {
            if !first {
                buf.push_str(del);
            }
            first = false;
            item.render(buf);
        }'''), (H, '''        for item in self.0 {
            item.render(buf);
        }''', '''        self.0.into_iter().for_each(|item| item.render(buf));''')]),
 'r4': (['C09', 'C12', 'C11'], [(R, '''                Ok(s.render(self.0))''', '''                escape(s, self.0);
                Ok(())'''), (R, '''        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();''', '''        let mut writer = EscapingBufferWriter(buffer);
        writer.write_fmt(self).expect("formatting failed");''')]),
 'r5': (['C08', 'C12'], [(R, '''        if let Some(value) = self {
            value.render(buffer);
        }''', '''        match self {
            None => {}
            Some(inner) => inner.render(buffer),
        }'''), (R, '''        match self {
            Cow::Owned(value) => value.render(buffer),
            Cow::Borrowed(value) => value.render(buffer),
        }''', '''        if let Cow::Borrowed(value) = self {
            value.render(buffer);
        } else if let Cow::Owned(value) = self {
            value.render(buffer);
        }'''), (R, '''                self.get().render(buffer);''', '''                let plain = self.get();
                Render::render(plain, buffer);''')]),
 'm1': (['C18', 'C19', 'C20', 'C22'], [(CO, '''    for i in 0..attrs.len() {
        if {
            let ref attr = attrs[i];
            attr.path.is_ident("default") && matches!(attr.style, AttrStyle::Outer)
        } {
            let attr = attrs.remove(i);

            return if attr.tokens.is_empty() {
                Ok(Some(quote!(::core::default::Default::default())))
            } else {
                Ok(Some(attr.tokens))
            };
        }
    }

    Ok(None)''', '''    let found = attrs.iter().position(|attr| {
        matches!(attr.style, AttrStyle::Outer) && attr.path.is_ident("default")
    });
    Ok(found.map(|i| {
        let tokens = attrs.remove(i).tokens;
        if tokens.is_empty() {
            quote!(::core::default::Default::default())
        } else {
            tokens
        }
    }))'''), (CO, '''let mut params = HashMap::new();''', '''let mut params = std::collections::BTreeMap::new();'''), (CO, '''use std::collections::HashMap;
''', '')]),
 'm2': (['C13', 'C14', 'C17', 'C23'], [(NO, '''        if self.buffer.len() != 0 {
            let literal = Literal::string(&self.buffer);

            self.stmts.push(quote!(buffer.push_str(#literal)));
            self.buffer.clear();
        }''', '''        let text = std::mem::take(&mut self.buffer);
        if !text.is_empty() {
            let literal = Literal::string(&text);
            self.stmts.push(quote!(buffer.push_str(#literal)));
        }'''), (BU, '''        let mut separate = false;

        for child in children {
            if separate {
                node.render.push_str(&element.delimiter);
            } else {
                separate = true;
            }
''', '''        for (i, child) in children.into_iter().enumerate() {
            if i > 0 {
                node.render.push_str(&element.delimiter);
            }
''')]),
 'm3': (['C16', 'C15', 'C21'], [(NO, '''let name = format_ident!("t{}", id);
        let ty = format_ident!("T{}", id);''', '''let name = format_ident!("field{}", id);
        let ty = format_ident!("Type{}", id);'''), (NO, '''            impl<#generics_bound> ::laby::Render for #ident<#generics> {
                #[inline]
                fn render(self, buffer: &mut ::laby::internal::Buffer) {
                    #stmts;
                }
            }''', '''            impl<#generics_bound> ::laby::Render for #ident<#generics> {
                #[inline]
                fn render(self, buffer: &mut ::laby::internal::Buffer) {
                    let _ = &buffer;
                    #stmts;
                }
            }'''), (MA, '__variant_{}', '__laby_branch_{}')]),
 'm4': (['C14', 'C13', 'C15'], [(BU, '''fn set_child(expr: Expr, node: &mut Node) -> syn::Result<()> {
    if let Some(value) = try_unwrap_literal(&expr).and_then(try_render_literal) {
        node.render.push_str(value);
    } else {
        let value = node.store_generic(quote!(#expr), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    Ok(())
}''', '''fn set_child(expr: Expr, node: &mut Node) -> syn::Result<()> {
    let literal = match try_unwrap_literal(&expr) {
        Some(lit) => try_render_literal(lit),
        None => None,
    };
    match literal {
        Some(text) => node.render.push_str(text),
        None => {
            let field = node.store_generic(quote!(#expr), quote!(::laby::Render));
            node.render
                .push_expr(quote!({ ::laby::Render::render(#field, buffer) }));
        }
    }
    Ok(())
}''')]),
}
def main():
    n = int(sys.argv[1]); sel = sys.argv[2:] or list(REFS); q = queue.Queue()
    for i in sel: q.put(i)
    def worker(k):
        base = f'/tmp/w/rf{k}'
        subprocess.run(['rm', '-rf', base]); os.makedirs(base)
        subprocess.check_call(['cp', '-a', '/repo', base + '/repo']); subprocess.check_call(['cp', '-a', '/verif', base + '/verif'])
        while True:
            try: i = q.get_nowait()
            except queue.Empty: break
            subprocess.run('git checkout -q -- .', shell=True, cwd=base + '/repo')
            props, edits = REFS[i]
            for e in edits:
                f, a, b = e[:3]; p = os.path.join(base, 'repo', f); s = open(p).read()
                if a not in s: print(i, 'EDIT DOES NOT APPLY', a[:60]); break
                if len(e) > 3: h, _, t = s.rpartition(a); s = h + b + t
                else: s = s.replace(a, b)
                open(p, 'w').write(s)
            for c in props:
                t = time.time()
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {base}/repo /repo; mount --bind {base}/verif /verif; cd /verif; ./check {c} quick'], capture_output=True, text=True)
                last = [l for l in r.stdout.split('\n') if l.startswith(c + ' ')]
                print(i, c, 'quiet' if r.returncode == 0 else f'ALARM rc {r.returncode}', round(time.time() - t), last[-1][:160] if last else '', flush=True)
                if r.returncode or ' 0 undecided' not in (last or [''])[-1]: print(re.sub(r'(?m)^', '      ', r.stdout[-1500:] + r.stderr[-1500:] if r.returncode else '\n'.join(l[:300] for l in r.stdout.split('\n') if 'UNDEC' in l)), flush=True)
        subprocess.run(['rm', '-rf', base])
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == '__main__': main()
