F = "measureme/src/serialization.rs"
M("c01-addr-after", "C01", F, "let curr_addr = Addr(*addr);\n        *addr += bytes.len() as u64;", "*addr += bytes.len() as u64;\n        let curr_addr = Addr(*addr);")
M("c01-skip-last-min", "C01", F, "if chunk.len() >= MIN_PAGE_SIZE {\n                    self.write_page(chunk);\n                } else {", "if chunk.len() > MIN_PAGE_SIZE {\n                    self.write_page(chunk);\n                } else if chunk.len() < MIN_PAGE_SIZE {")
M("c01-noflush", "C01", F, "// Make sure we flush the buffer before writing out any other pages.\n        self.flush(buffer);", "if buffer.len() > MIN_PAGE_SIZE { self.flush(buffer); }")
M("c01-take-wrong", "C01", F, "bytes_left = &bytes_left[num_bytes_to_take..];", "bytes_left = &bytes_left[min(num_bytes_to_take + 1, bytes_left.len())..];")
M("c01-noclear", "C01", F, "self.write_page(&buffer[..]);\n        buffer.clear();", "self.write_page(&buffer[..]);\n        if buffer.len() < MAX_PAGE_SIZE { buffer.clear(); }")
M("c01-early-unlock", "C01 C05", F, "        for chunk in bytes_left.chunks(MAX_PAGE_SIZE) {\n            if chunk.len() == MAX_PAGE_SIZE {", "        drop(data);\n        let mut data = self.data.lock();\n        let SerializationSinkInner {\n            ref mut buffer,\n            addr: _,\n        } = *data;\n        for chunk in bytes_left.chunks(MAX_PAGE_SIZE) {\n            if chunk.len() == MAX_PAGE_SIZE {")
M("c01-atomic-addr", "C01", F, "*addr += num_bytes as u64;\n\n        Addr(curr_addr)", "*addr += num_bytes as u64;\n\n        Addr(*addr - buffer.len() as u64)")
M("c01-atomic-addr-small", "C01", F, "        if num_bytes > MAX_PAGE_SIZE {\n            let mut bytes = vec![0u8; num_bytes];", "        if num_bytes >= MAX_PAGE_SIZE {\n            let mut bytes = vec![0u8; num_bytes];", "ok")
M("c01-chunks-exact", "C01", F, "bytes_left.chunks(MAX_PAGE_SIZE)", "bytes_left.chunks_exact(MAX_PAGE_SIZE)")
M("c01-chunksize", "C01", F, "bytes_left.chunks(MAX_PAGE_SIZE)", "bytes_left.chunks(MAX_PAGE_SIZE / 2)", "ok")
M("c02-split-page", "C02", F, "            file.write_all(&page_size).unwrap();", "            drop(file);\n            let mut file = self.shared_state.0.lock();\n            file.write_all(&page_size).unwrap();")
M("c02-be", "C02", F, "(bytes.len() as u32).to_le_bytes()", "(bytes.len() as u32).to_be_bytes()")
M("c02-reader-pos", "C02", F, "pos += page_size + 5;", "pos += page_size + 5 + (page_size == 65536) as usize;")
M("c02-reader-u16", "C02", F, "u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;", "u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize & 0xffff;")
M("c02-reader-overwrite", "C02", F, "        result\n            .entry(tag)\n            .or_default()\n            .extend_from_slice(&paged_data[pos + 5..pos + 5 + page_size]);", "        result.insert(tag, paged_data[pos + 5..pos + 5 + page_size].to_vec());")
M("c03-drop-empty", "C03", F, "        } = *data;\n\n        self.flush(buffer);\n    }\n}\n", "        } = *data;\n\n        if buffer.len() > 128 { self.flush(buffer); }\n    }\n}\n")
M("c03-adapter-noflush", "C03", F, "        // First flush the local buffer.\n        self.0.flush(buffer);\n\n        // Then flush the backing store.\n        self.0.shared_state.0.lock().flush()?;", "        self.0.shared_state.0.lock().flush()?;\n        self.0.flush(buffer);")
M("c03-intobytes", "C03", F, "        self.flush(buffer);\n\n        self.shared_state.copy", "        if buffer.len() >= 8 { self.flush(buffer); }\n\n        self.shared_state.copy")
M("c03-clear-first", "C03", F, "self.write_page(&buffer[..]);\n        buffer.clear();", "let n = buffer.len(); if n > MIN_PAGE_SIZE { buffer.truncate(MIN_PAGE_SIZE); }\n self.write_page(&buffer[..]);\n        buffer.clear();")
# behaviour preserving
M("ok-sink-helper", "C01 C02 C03 C05", F, "        let curr_addr = *addr;\n\n        let buf_start = buffer.len();\n        let buf_end = buf_start + num_bytes;\n        buffer.resize(buf_end, 0u8);\n        write(&mut buffer[buf_start..buf_end]);\n\n        *addr += num_bytes as u64;\n\n        Addr(curr_addr)", "        let result = Addr(*addr);\n        *addr += num_bytes as u64;\n        let old = buffer.len();\n        buffer.extend(std::iter::repeat(0u8).take(num_bytes));\n        write(&mut buffer[old..]);\n        result", "ok")
M("ok-sink-while", "C01 C02 C03 C05", F, "        for chunk in bytes_left.chunks(MAX_PAGE_SIZE) {\n            if chunk.len() == MAX_PAGE_SIZE {", "        while !bytes_left.is_empty() {\n            let n = min(bytes_left.len(), MAX_PAGE_SIZE);\n            let (chunk, rest) = bytes_left.split_at(n);\n            bytes_left = rest;\n            if chunk.len() == MAX_PAGE_SIZE {", "ok")
M("ok-sink-onewrite", "C01 C02 C03 C05", F, "            file.write_all(&[self.page_tag as u8]).unwrap();\n\n            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();\n            file.write_all(&page_size).unwrap();", "            let mut header = [0u8; 5];\n            header[0] = self.page_tag as u8;\n            header[1..].copy_from_slice(&(bytes.len() as u32).to_le_bytes());\n            file.write_all(&header).unwrap();", "ok")
M("ok-sink-split-for", "C01 C02 C03 C05", F, "    let mut pos = 0;\n    while pos < paged_data.len() {\n        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n\n        assert!(page_size > 0);\n\n        result\n            .entry(tag)\n            .or_default()\n            .extend_from_slice(&paged_data[pos + 5..pos + 5 + page_size]);\n\n        pos += page_size + 5;\n    }", "    let mut rest = paged_data;\n    while !rest.is_empty() {\n        let (header, tail) = rest.split_at(5);\n        let tag: PageTag = TryInto::try_into(header[0]).unwrap();\n        let page_size = u32::from_le_bytes(header[1..5].try_into().unwrap()) as usize;\n        assert!(page_size > 0);\n        let (page, tail) = tail.split_at(page_size);\n        result.entry(tag).or_insert_with(Vec::new).extend_from_slice(page);\n        rest = tail;\n    }", "ok")

M("c44-ge", "C44", F, "if buffer.len() + num_bytes > MAX_PAGE_SIZE {\n            self.flush", "if buffer.len() >= MAX_PAGE_SIZE {\n            self.flush")
M("c44-last", "C44", F, "        if num_bytes > MAX_PAGE_SIZE {\n            let mut bytes = vec", "        if num_bytes > MAX_PAGE_SIZE + 1 {\n            let mut bytes = vec")
M("c44-nochunk", "C44", F, "for chunk in bytes_left.chunks(MAX_PAGE_SIZE) {", "for chunk in bytes_left.chunks(MAX_PAGE_SIZE + MIN_PAGE_SIZE) {")
M("c44-fill", "C44", F, "        if bytes_left.is_empty() {\n            return curr_addr;\n        }", "        if bytes_left.len() < MIN_PAGE_SIZE {\n            buffer.extend_from_slice(bytes_left);\n            return curr_addr;\n        }")
M("c44-assert-min", "C44", F, "assert!(bytes.len() <= MAX_PAGE_SIZE);", "assert!(bytes.len() < MAX_PAGE_SIZE);")
M("c44-ok-earlier", "C44 C01", F, "if buffer.len() + num_bytes > MAX_PAGE_SIZE {\n            self.flush", "if buffer.len() + num_bytes >= MAX_PAGE_SIZE {\n            self.flush", "ok")
