H = 'containers/cliffMap/hashMap.hpp'
P = 'include/persistence.hpp'
M = []


def bug(name, props, *edits, **kw):
    M.append(dict(name=name, kind='bug', props=props, edits=edits, **kw))


def ref(name, *edits, **kw):
    M.append(dict(name=name, kind='ref', props=[], edits=edits, **kw))


# ---- bugs in the map --------------------------------------------------------------------------------
bug('pia-cond', ['C01'], (H, 'return putIfMatch(key, value, VTOMBSTONE);', 'return putIfMatch(key, value, NO_MATCH_OLD);'))
bug('remove-cond', ['C01'], (H, 'return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;', 'return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VTOMBSTONE;'))
bug('replace-cond', ['C01'], (H, '(V != VINITIAL || oldVal != VTOMBSTONE))', '(V != VINITIAL || oldVal == VTOMBSTONE))'))
bug('wildcard-drop', ['C01'], (H, 'if (oldVal != NO_MATCH_OLD &&', 'if ('))
bug('size-pia', ['C12'], (H, 'if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)', 'if (V == VINITIAL && newVal != VTOMBSTONE)'))
bug('size-del', ['C12'], (H, 'else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)', 'else if (!(V == VINITIAL) && newVal == VTOMBSTONE)'))
bug('size-copy', ['C12'], (H, 'if (oldVal != VINITIAL)\n                {\n                    // If we removed an initial', 'if (oldVal != VTOMBSTONE)\n                {\n                    // If we removed an initial'))
bug('same-early', ['C01', 'C02'], (H, 'if (newVal == V && CAS == &Table::CASvalue)', 'if (newVal == V)'))
bug('dirty-cas', ['C06'], (P, '(U)((uintptr_t)newVal | DirtyFlag)))\n', 'newVal))\n'))
bug('read-nopersist', ['C06'], (P, '        persist(address, word);\n', '        address->compare_exchange_strong(word, (U)((uintptr_t)word & ~DirtyFlag));\n'))
bug('persist-nofence', ['C06'], (P, '    FLUSH(address);\n    FENCE;\n', '    FLUSH(address);\n'))
bug('persist-noflush', ['C06'], (P, '    FLUSH(address);\n    FENCE;\n', '    FENCE;\n'))
bug('pcas-nopersist', ['C07'], (P, '            persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));\n', ''))
bug('pcas-bool', ['C01'], (P, '    while ((oldVal = pcas_read<U>(address)) == oldValCopy)', '    while ((oldVal = pcas_read<U>(address)) == oldValCopy || oldVal != newVal)'))
bug('probe-start', ['C05'], (H, 'size_t idx = fullHash & (len - 1);', 'size_t idx = (fullHash + 1) & (len - 1);'))
bug('probe-limit-get', ['C05'], (H, '''            if (++reprobeCount >= reprobeLimit(len) ||
                // Or if we found a tombstone key''', '''            if (++reprobeCount >= REPROBE_LIMIT ||
                // Or if we found a tombstone key'''))
bug('probe-step', ['C05'], (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            // Probe to the next index.\n            idx = (idx + 2) & (len - 1);'))
bug('get-nosucc', ['C05'], (H, 'return (newTable == nullptr) ? VINITIAL : getImpl(helpCopy(newTable), key, fullHash);', 'return VINITIAL;'))
bug('copy-order', ['C04'], (H, 'hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);', ';'))
bug('copy-overwrite', ['C04'], (H, 'hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);', 'hashMap->putIfMatch(newTable, key, oldUnmarked, NO_MATCH_OLD);'))
bug('count-early', ['C04'], (H, 'if (copyDone + workDone == oldLen &&', 'if (copyDone + workDone + 1 >= oldLen &&'))
bug('count-twice', ['C04'], (H, 'return retired;', 'return true;'))
bug('count-none', ['C04'], (H, 'return retired;', 'return false;'))
bug('copy-nomark', ['C04', 'C03'], (H, '(Value)setMark((uintptr_t)oldVal, MigrationFlag);', 'oldVal;'))
bug('retry-oldval', ['C01'], (H, 'return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);', 'return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, NO_MATCH_OLD, CAS);'))
bug('retry-fn', ['C02'], (H, 'return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);', 'return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);'))
bug('resize-free', ['C10'], (H, 'munmapTable(newTable);\n                    // And get', 'munmapTable(this->newTable.load());\n                    // And get'))
bug('resize-keep', ['C10'], (H, '                    newTable = this->newTable.load();\n                    // The new table should never be NULL.', '                    // The new table should never be NULL.'))
ref('resize-small', (H, 'if (newSize <= oldLen)\n', 'if (newSize < oldLen)\n'))
bug('resize-size', ['C12'], (H, 'newTable = mmapTable(true, newSize, size, filename.c_str());', 'newTable = mmapTable(true, newSize, 0, filename.c_str());'))
bug('inc-old', ['C02'], (H, 'newValue = ((oldValue >> BITS_MARKED) + 1) << BITS_MARKED;', 'newValue = ((newValue >> BITS_MARKED) + 1) << BITS_MARKED;'))
bug('inc-tomb', ['C02'], (H, 'if (oldValue == VINITIAL || oldValue == VTOMBSTONE)\n            {\n                oldValue = 0;', 'if (oldValue == VINITIAL)\n            {\n                oldValue = 0;'))
bug('help-range', ['C17'], (H, 'copySlot(hashMap, (copyIdx + i) & (oldLen - 1), oldTable, newTable)', 'copySlot(hashMap, (copyIdx + i) & oldLen, oldTable, newTable)'))
bug('casnew-blind', ['C10'], (H, 'ret = this->newTable.compare_exchange_strong(oldTable, newTable);', 'this->newTable.store(newTable); ret = true;'))
bug('promote-store', ['C04'], (H, '''hashMap->table.compare_exchange_strong(oldTable, newTable))''', '''(hashMap->table.store(newTable), true))'''))
bug('get-stale', ['C04', 'C01', 'C05'], (H, 'return getImpl(table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL), key, fullHash);', 'return getImpl(newTable == nullptr ? table->chm.resize(this, table) : newTable, key, fullHash);'))
ref('get-marked', (H, 'if (!isMarked((uintptr_t)V, MigrationFlag))\n                {\n                    // No table copy.', 'if (newTable == nullptr || !isMarked((uintptr_t)V, MigrationFlag))\n                {\n                    // No table copy.'))
bug('seal-drop', ['C05', 'C04'], (H, '''            if (++reprobeCount >= reprobeLimit(len) ||
                // Or if we run out of space.
                K == KTOMBSTONE)''', '''            if (++reprobeCount >= reprobeLimit(len) + 1 ||
                // Or if we run out of space.
                K == KTOMBSTONE)'''))
bug('v-reread', ['C01', 'C03'], (H, 'return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : V;', 'return table->value(idx);'))

# ---- behaviour-preserving edits -----------------------------------------------------------------------
ref('ref-limit-const', (H, 'return REPROBE_LIMIT + (len >> 2);', 'return len / 4 + REPROBE_LIMIT;'))
ref('ref-mod', (H, 'size_t idx = fullHash & (len - 1);', 'size_t idx = fullHash % len;'))
ref('ref-wrap', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            if (++idx == len) idx = 0;'))
ref('ref-wrap-tern', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            idx = idx + 1 == len ? 0 : idx + 1;'))
ref('ref-wrap-ge', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            idx++; if (idx >= len) idx -= len;'))
ref('ref-wrap-else', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            if (idx == len - 1) idx = 0; else idx++;'))
ref('ref-wrap-lt', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            idx = idx + 1 < len ? idx + 1 : 0;'))
ref('ref-wrap-mod', (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            idx = (idx + 1) % len;'))
bug('bug-wrap-gt', ['C17','C05'], (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            if (++idx > len) idx = 0;'))
bug('bug-wrap-eq1', ['C17','C05'], (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            if (++idx == len - 1) idx = 0;'))
bug('bug-wrap-one', ['C17','C05'], (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            if (++idx == len) idx = 1;'))
ref('ref-helper', (H, '    // Heavy lifting for user-facing get', '''    static size_t nextIdx(size_t i, size_t n) { return (i + 1) & (n - 1); }
    static bool noValue(Value v) { return v == VINITIAL || v == VTOMBSTONE; }
    // Heavy lifting for user-facing get'''), (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', 'idx = nextIdx(idx, len);'),
    (H, 'if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)', 'if (noValue(V) && newVal != VTOMBSTONE)'))
ref('ref-for', (H, '''        size_t reprobeCount = 0;
        while (true)
        {
            // Probe the table.''', '''        for (size_t reprobeCount = 0;;)
        {
            // Probe the table.'''))
ref('ref-swap-cond', (H, 'if (newVal == V && CAS == &Table::CASvalue)', 'if (CAS == &Table::CASvalue && V == newVal)'))
ref('ref-reorder-load', (H, '''            Key K = table->key(idx);
            Value V = table->value(idx);

            // The key was not present.''', '''            const Key K = table->key(idx);
            const Value V = table->value(idx);
            // The key was not present.'''))
ref('ref-casnew', (H, '''                while (true)
                {
                    ret = this->newTable.compare_exchange_strong(oldTable, newTable);
                    // If we succeeded here.
                    if (ret ||
                        // If someone else already succeeded here.
                        oldTable != nullptr)
                    {
                        break;
                    }
                }
                return ret;''', '''                do
                {
                    ret = this->newTable.compare_exchange_strong(oldTable, newTable);
                } while (!ret && oldTable == nullptr);
                return ret;'''))
ref('ref-retired-loop', (H, '''                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                // Whoever retires the slot counts it, no matter who copied the value.
                bool retired = (actualVal == oldVal);
                while (actualVal != oldVal)
                {
                    oldVal = actualVal;
                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                }''', '''                bool retired = false;
                for (bool first = true;; first = false)
                {
                    Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                    if (actualVal == oldVal)
                    {
                        retired = first;
                        break;
                    }
                    oldVal = actualVal;
                }'''))
ref('ref-pcas', (P, '''    while ((oldVal = pcas_read<U>(address)) == oldValCopy)
    {
        // Attempt to CAS.
        if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))
        {
            // The update must be durable before anything relies on it having happened.
            persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));
            return true;
        }
    }
    return false;''', '''    const U marked = (U)((uintptr_t)newVal | DirtyFlag);
    for (;;)
    {
        oldVal = pcas_read<U>(address);
        if (oldVal != oldValCopy)
            return false;
        U seen = oldVal;
        if (address->compare_exchange_strong(seen, marked))
            break;
    }
    persist<U>(address, marked);
    return true;'''))
ref('ref-weak', (P, 'if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))', 'if (address->compare_exchange_weak(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))'))
ref('ref-help-loop', (H, '''                    for (size_t i = 0; i < MIN_COPY_WORK; i++)
                    {
                        // Copy from''', '''                    for (size_t i = MIN_COPY_WORK; i-- > 0;)
                    {
                        // Copy from'''))
ref('ref-help-fetchadd', (H, 'workDone++;', 'workDone = workDone + 1;'))
ref('ref-resize-branch', (H, 'newSize = oldLen << 1;\n                    // If we are >50% full of keys.\n                    if (size >= (oldLen / 2))\n                    {\n                        // Effectively quadruple size.\n                        newSize = oldLen << 1;\n                    }', 'newSize = oldLen * 2;'))
ref('ref-resize-nocheck', (H, '''                newTable = this->newTable.load();
                if (newTable != nullptr)
                {
                    assert(newTable->len > oldLen);
                    return newTable;
                }

                // Using a''', '''                // Using a'''))
ref('ref-ternary', (H, 'return (V == VTOMBSTONE) ? VINITIAL : V;\n                }', 'if (V == VTOMBSTONE)\n                        return VINITIAL;\n                    return V;\n                }'))
ref('ref-get-loop', (H, 'return getImpl(table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL), key, fullHash);', '{ table = table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL); len = table->len; idx = fullHash & (len - 1); reprobeCount = 0; continue; }'))
ref('ref-put-loop', (H, 'return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);', 'Table *next = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);\n            Value res = this->putIfMatch(next, key, newVal, oldVal, CAS);\n            return res;'))
ref('ref-size-inline', (H, 'table->chm.size.fetch_add(1);\n                    }\n                    // If we removed a non-initial', 'table->chm.size++;\n                    }\n                    // If we removed a non-initial'))
ref('ref-size-sub', (H, 'table->chm.size.fetch_add(-1);', 'table->chm.size.fetch_sub(1);'))
ref('ref-early-key', (H, 'if (oldVal != NO_MATCH_OLD &&', 'const bool wild = (oldVal == NO_MATCH_OLD);\n            if (!wild &&'))

# ---- creation, opening, release ------------------------------------------------------------------------
bug('per-end', ['C08'], (P, 'uptr < (uintptr_t)addr + len;\n', 'uptr + FLUSH_ALIGN <= (uintptr_t)addr + len;\n'))
bug('per-align', ['C08'], (P, 'uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);', 'uptr = (uintptr_t)addr;'))
bug('per-nofence', ['C08'], (P, '        FLUSH(uptr);\n    }\n    FENCE;\n', '        FLUSH(uptr);\n    }\n'))
bug('per-step', ['C08'], (P, 'uptr += FLUSH_ALIGN)', 'uptr += 2 * FLUSH_ALIGN)'))
bug('per-line', ['C08'], (P, 'const uintptr_t FLUSH_ALIGN = 64;', 'const uintptr_t FLUSH_ALIGN = 128;'))
ref('per-do', (P, """    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;""", """    const uintptr_t end = (uintptr_t)addr + len;
    uptr = (uintptr_t)addr - (uintptr_t)addr % FLUSH_ALIGN;
    while (uptr < end)
    {
        FLUSH(uptr);
        uptr += FLUSH_ALIGN;
    }
    FENCE;"""))
ref('per-lines', (P, """    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;""", """    const uintptr_t end = (uintptr_t)addr + len;
    const uintptr_t first = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
    for (size_t i = 0; first + i * FLUSH_ALIGN < end; i++)
    {
        FLUSH((first + i * FLUSH_ALIGN));
    }
    FENCE;"""))
ref('per-helper', (P, """    uintptr_t uptr;
    // Loop through cache-line-size (typically 64B) aligned chunks covering the given range.
    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;""", """    PERSIST_FLUSH_ONLY(addr, len);
    FENCE;"""), (P, '// Base persistence functions.\n', 'static void PERSIST_FLUSH_ONLY(const void *addr, size_t len);\n'))
ref('per-backwards', (P, """    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;""", """    if (len == 0) { FENCE; return; }
    const uintptr_t first = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
    for (uptr = ((uintptr_t)addr + len - 1) & ~(FLUSH_ALIGN - 1); ; uptr -= FLUSH_ALIGN)
    {
        FLUSH(uptr);
        if (uptr == first) break;
    }
    FENCE;"""))
bug('new-early', ['C09'], (H, 'const std::string tmpName = std::string(fileName) + ".tmp";', 'const std::string tmpName = std::string(fileName);'))
bug('new-tmpname', ['C09'], (H, 'const std::string tmpName = std::string(fileName) + ".tmp";', 'const std::string tmpName = std::string(fileName) + ".new.dat";'))
bug('new-nopersist', ['C09'], (H, '                PERSIST(pairs, sizeof(KVpair) * tableCapacity);\n', ''))
bug('new-half', ['C09'], (H, 'PERSIST(pairs, sizeof(KVpair) * tableCapacity);', 'PERSIST(pairs, sizeof(Key) * tableCapacity);'))
bug('new-order', ['C09'], (H, '                // Persist all keys and values.\n                // Everything else can be inferred upon recovery.\n                PERSIST(pairs, sizeof(KVpair) * tableCapacity);\n', ''),
    (H, 'table = new Table(tableCapacity, existingSize, count, pairs);', 'table = new Table(tableCapacity, existingSize, count, pairs);\nPERSIST(pairs, sizeof(KVpair) * tableCapacity);'))
bug('new-short', ['C09', 'C16'], (H, 'if (ftruncate(fd, length) == -1)', 'if (ftruncate(fd, length - sizeof(KVpair)) == -1)'))
bug('new-noval', ['C09'], (H, '                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));\n', ''))
bug('new-tomb', ['C09'], (H, '                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));\n', '                    pairs[i].value.store((Value)setMark(VTOMBSTONE, DirtyFlag));\n'))
bug('new-last', ['C09'], (H, 'for (size_t i = 0; i < tableCapacity; i++)\n                {\n                    // Initialize', 'for (size_t i = 0; i + 1 < tableCapacity; i++)\n                {\n                    // Initialize'))
bug('new-over', ['C09', 'C17'], (H, 'for (size_t i = 0; i < tableCapacity; i++)\n                {\n                    // Initialize', 'for (size_t i = 0; i <= tableCapacity; i++)\n                {\n                    // Initialize'))
bug('new-count', ['C12'], (H, 'table = new Table(tableCapacity, existingSize, count, pairs);', 'table = new Table(tableCapacity, 0, count, pairs);'))
bug('new-private', ['C07', 'C09'], (H, 'KVpair *pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);', 'KVpair *pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, 0);'))
bug('new-leak', ['C16'], (H, """                    std::cerr << "Failed to adjust file size." << std::endl;
                    close(fd);
""", """                    std::cerr << "Failed to adjust file size." << std::endl;
"""))
bug('new-nocheck', ['C16'], (H, 'if (ftruncate(fd, length) == -1)', 'if (ftruncate(fd, length) == -2)'))
bug('new-mapcheck', ['C16'], (H, '                if ((intptr_t)pairs == -1)\n                {\n                    // Error.\n                    std::cerr << "Failed to mmap a new', '                if (pairs == NULL)\n                {\n                    // Error.\n                    std::cerr << "Failed to mmap a new'))
bug('new-renamecheck', ['C16'], (H, 'if (std::rename(tmpName.c_str(), fileName) == -1)', 'if (std::rename(tmpName.c_str(), fileName) == 1)'))
bug('close-none', ['C16'], (H, '            close(fd);\n\n            // Return the mapped table.', '            // Return the mapped table.'))
bug('old-trunc', ['C11'], (H, 'fd = open(fileName, O_RDWR);', 'fd = open(fileName, O_RDWR | O_TRUNC);'))
bug('old-rdonly', ['C11', 'C16'], (H, 'fd = open(fileName, O_RDWR);', 'fd = open(fileName, O_RDONLY);'))
bug('old-half', ['C11'], (H, 'size_t size = length / sizeof(KVpair);', 'size_t size = length / (2 * sizeof(KVpair));'))
bug('old-last', ['C12', 'C11', 'C04'], (H, 'for (size_t i = 0; i < size; i++)\n                {\n', 'for (size_t i = 1; i < size; i++)\n                {\n'))
bug('old-count', ['C12'], (H, 'if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)', 'if (V != VINITIAL && V != TOMBPRIME)'))
bug('old-prime', ['C11', 'C04'], (H, 'if (V == TOMBPRIME)\n                    {\n                        retired++;', 'if (V == VTOMBSTONE)\n                    {\n                        retired++;'))
bug('old-noretired', ['C11', 'C04'], (H, '                table->chm.recoverCopyDone(retired);\n', ''))
bug('old-erase', ['C11'], (H, '                    if (V == TOMBPRIME)\n                    {\n                        retired++;', '                    if (V == VINITIAL && K != KINITIAL) table->pairs[i].value.store(VTOMBSTONE);\n                    if (V == TOMBPRIME)\n                    {\n                        retired++;'))
bug('old-sizeok', ['C16'], (H, 'if (fstat(fd, &finfo) == -1)', 'if (fstat(fd, &finfo) > 0)'))
bug('old-openok', ['C16'], (H, """                fd = open(fileName, O_RDWR);
                if (fd == -1)""", """                fd = open(fileName, O_RDWR);
                if (fd == 0)"""))
bug('unmap-len', ['C16', 'C10'], (H, 'munmap(table->pairs, (sizeof(KVpair) * table->len))', 'munmap(table->pairs, table->len)'))
bug('unmap-res', ['C16'], (H, '* table->len)) == 0);', '* table->len)) != 0);'))
bug('name-ext', ['C11'], (H, '".dat"', '".map"'))
bug('sent-same', ['C13'], (H, 'VTOMBSTONE = ((((size_t)1 << 62) - 2)', 'VTOMBSTONE = ((((size_t)1 << 62) - 1)'))
bug('isres', ['C13'], (H, 'value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME', 'value == VINITIAL || value == TOMBPRIME'))
bug('isres2', ['C13'], (H, 'return key == KINITIAL || key == KTOMBSTONE;', 'return key >= KTOMBSTONE - 8;'))
ref('ref-isres', (H, 'return key == KINITIAL || key == KTOMBSTONE;', 'return !(key != KINITIAL && key != KTOMBSTONE);'))
ref('ref-init-ptr', (H, """                for (size_t i = 0; i < tableCapacity; i++)
                {
                    // Initialize these to a default, reserved value.
                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));""", """                for (KVpair *pr = pairs; pr != pairs + tableCapacity; ++pr)
                {
                    // Initialize these to a default, reserved value.
                    pr->value.store((Value)setMark(VINITIAL, DirtyFlag));
                    pr->key.store((Key)setMark(KINITIAL, DirtyFlag));"""))
ref('ref-init-down', (H, 'for (size_t i = 0; i < tableCapacity; i++)\n                {\n                    // Initialize', 'for (size_t i = tableCapacity; i-- > 0;)\n                {\n                    // Initialize'))
ref('ref-init-two', (H, """                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));
                }""", """                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                }
                for (size_t i = 0; i != tableCapacity; ++i)
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));"""))
ref('ref-clean-init', (H, '(Key)setMark(KINITIAL, DirtyFlag)', 'KINITIAL'), (H, '(Value)setMark(VINITIAL, DirtyFlag)', 'VINITIAL'))
ref('ref-persist-length', (H, 'PERSIST(pairs, sizeof(KVpair) * tableCapacity);', 'PERSIST_FLUSH_ONLY(pairs, length);\n                PERSIST_BARRIER_ONLY();'))
ref('ref-fd-neg', (H, 'fd = open(tmpName.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);\n                if (fd == -1)', 'fd = open(tmpName.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);\n                if (fd < 0)'))
ref('ref-mapfailed', (H, '                if ((intptr_t)pairs == -1)', '                if (pairs == MAP_FAILED)'), all=True)
ref('ref-trunc-neg', (H, 'if (ftruncate(fd, length) == -1)', 'if (ftruncate(fd, (off_t)length) != 0)'))
ref('ref-recount', (H, """                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.size.fetch_add(1);
                    }""", """                    const bool none = V == VINITIAL || V == VTOMBSTONE || V == TOMBPRIME;
                    if (!none)
                    {
                        table->chm.size++;
                    }"""))
ref('ref-recount-local', (H, """                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.size.fetch_add(1);
                    }""", """                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        live++;
                    }"""), (H, '                size_t retired = 0;\n', '                size_t retired = 0, live = 0;\n'), (H, '                table->chm.recoverCopyDone(retired);\n', '                table->chm.recoverCopyDone(retired);\n                table->chm.size.store(live);\n'))
ref('ref-retired-fn', (H, """                    if (V == TOMBPRIME)
                    {
                        retired++;
                    }""", """                    retired += V == TOMBPRIME;"""))

# ---- recovery ------------------------------------------------------------------------------------------
SORT = '''            std::sort(tableNames.begin(), tableNames.end(),
                      [](std::string a, std::string b)
                      {
                          return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());
                      });
'''
bug('rec-nosort', ['C11'], (H, SORT, ''))
bug('rec-lexsort', ['C11'], (H, SORT, '            std::sort(tableNames.begin(), tableNames.end());\n'))
bug('rec-descsort', ['C11'], (H, 'return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());', 'return Table::numFromName(a.c_str()) > Table::numFromName(b.c_str());'))
bug('rec-counter', ['C11'], (H, 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);', 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()));'))
bug('rec-counter-first', ['C11'], (H, 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);', 'fileNameCounter.store(Table::numFromName(tableNames[0].c_str()) + 1);'))
bug('rec-counter-kept', ['C11'], (H, 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);', 'fileNameCounter.store(tables.size() + 1);'))
bug('rec-counter-late', ['C11'], (H, '            // Ensure we use unique file names.\n            if (!tableNames.empty())', '            // Ensure we use unique file names.\n            if (!tables.empty())'))
bug('rec-older', ['C11'], (H, 'if (untouched || (migrationDone && tables.empty()))', 'if (untouched || migrationDone)'))
bug('rec-untouched', ['C11'], (H, '                    if (table->key(i) != KINITIAL)\n                    {\n                        untouched = false;\n                    }\n', ''))
bug('rec-frozen', ['C11'], (H, '                        val == TOMBPRIME)\n                    {\n                        // Then', '                        isMarked((uintptr_t)val, MigrationFlag))\n                    {\n                        // Then'))
bug('rec-half', ['C11'], (H, 'for (size_t i = 0; i < table->len; i++)\n                {\n                    if (table->key', 'for (size_t i = 0; i < table->len / 2; i++)\n                {\n                    if (table->key'))
bug('rec-size', ['C11', 'C17'], (H, 'for (size_t i = 0; i < table->len; i++)\n                {\n                    if (table->key', 'for (size_t i = 0; i < size; i++)\n                {\n                    if (table->key'))
bug('rec-root', ['C11'], (H, 'this->table.store(tables.empty() ? Table::mmapTable(true, size) : tables[0]);', 'this->table.store(tables.empty() ? Table::mmapTable(true, size) : tables.back());'))
bug('rec-link', ['C11'], (H, 'bool CASSucceed = oldTable->chm.CASNewTable(newTable);', 'bool CASSucceed = tables[0]->chm.CASNewTable(newTable);'))
bug('rec-nolink', ['C11'], (H, 'if (oldTable != NULL)\n                {\n                    // Link', 'if (oldTable != NULL && tables.size() < 3)\n                {\n                    // Link'))
bug('rec-ext', ['C11', 'C09'], (H, 'if (p.is_regular_file() && p.path().extension() == ".dat")', 'if (p.is_regular_file())'))
bug('rec-ext2', ['C11'], (H, 'if (p.is_regular_file() && p.path().extension() == ".dat")', 'if (p.is_regular_file() && p.path().extension() == ".tmp")'))
bug('rec-delete-all', ['C11'], (H, '                else\n                {\n                    // Migration is incomplete. Add it to our list.\n                    tables.push_back(table);\n                }\n                lastTableName', '                else\n                {\n                    // Migration is incomplete. Add it to our list.\n                    tables.push_back(table);\n                    if (untouched) std::remove((*it).c_str());\n                }\n                if (tables.size() > 4) std::remove((*it).c_str());\n                lastTableName'))
bug('rec-emptydrop', ['C11'], (H, 'if (untouched || (migrationDone && tables.empty()))', 'if (untouched || (migrationDone && tables.empty()) || table->len < size)'))
bug('rec-remove-other', ['C11'], (H, 'if (std::remove((*it).c_str()) != 0)', 'if (std::remove(tableNames[0].c_str()) != 0)'))
bug('rec-skip-last', ['C11'], (H, 'for (auto it = tableNames.begin(); it != tableNames.end(); ++it)', 'for (auto it = tableNames.begin(); it + 1 != tableNames.end(); ++it)'))
ref('rec-range-for', (H, 'for (auto it = tableNames.begin(); it != tableNames.end(); ++it)\n            {', 'for (const std::string &tableName : tableNames)\n            {'),
    (H, 'Table::mmapTable(!reconstruct, size, 0, (*it).c_str());', 'Table::mmapTable(!reconstruct, size, 0, tableName.c_str());'),
    (H, 'if (std::remove((*it).c_str()) != 0)', 'if (std::remove(tableName.c_str()) != 0)'),
    (H, 'fprintf(stderr, "Error deleting file \\"%s\\". Error %d\\n", (*it).c_str(), errno);', 'fprintf(stderr, "Error deleting file \\"%s\\". Error %d\\n", tableName.c_str(), errno);'),
    (H, 'lastTableName = *it;', 'lastTableName = tableName;'))
ref('rec-index-for', (H, 'for (auto it = tableNames.begin(); it != tableNames.end(); ++it)\n            {', 'for (size_t n = 0; n < tableNames.size(); n++)\n            {\n                const std::string &tableName = tableNames[n];'),
    (H, 'Table::mmapTable(!reconstruct, size, 0, (*it).c_str());', 'Table::mmapTable(!reconstruct, size, 0, tableName.c_str());'),
    (H, 'if (std::remove((*it).c_str()) != 0)', 'if (std::remove(tableName.c_str()) != 0)'),
    (H, 'fprintf(stderr, "Error deleting file \\"%s\\". Error %d\\n", (*it).c_str(), errno);', 'fprintf(stderr, "Error deleting file \\"%s\\". Error %d\\n", tableName.c_str(), errno);'),
    (H, 'lastTableName = *it;', 'lastTableName = tableName;'))
LINK = '''            Table *oldTable = NULL;
            Table *newTable = NULL;
            for (auto it = tables.begin(); it != tables.end(); ++it)
            {
                oldTable = newTable;
                newTable = *it;

                if (oldTable != NULL)
                {
                    // Link the levels. This should always succeed, since we are running only one thread.
                    bool CASSucceed = oldTable->chm.CASNewTable(newTable);
                    assert(CASSucceed);
                }
            }
'''
ref('rec-link-index', (H, LINK, '''            for (size_t n = 1; n < tables.size(); n++)
            {
                bool CASSucceed = tables[n - 1]->chm.CASNewTable(tables[n]);
                assert(CASSucceed);
            }
'''))
ref('rec-link-index2', (H, LINK, '''            for (size_t n = 0; n + 1 < tables.size(); n++)
            {
                if (!tables[n]->chm.CASNewTable(tables[n + 1]))
                    fprintf(stderr, "cannot link\\n");
            }
'''))
ref('rec-link-range', (H, LINK, '''            Table *prev = nullptr;
            for (Table *t : tables)
            {
                if (prev)
                    prev->chm.CASNewTable(t);
                prev = t;
            }
'''))
ref('rec-link-scan', (H, LINK, ''), (H, '                    tables.push_back(table);\n', '                    if (!tables.empty())\n                        tables.back()->chm.CASNewTable(table);\n                    tables.push_back(table);\n'))
ref('rec-counter-back', (H, 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);', 'fileNameCounter = Table::numFromName(tableNames.back().c_str()) + 1;'))
ref('rec-counter-early', (H, '            // For each table.\n            // Map the table.', '            if (tableNames.size() > 0)\n                fileNameCounter.store(1 + Table::numFromName(tableNames.back().c_str()));\n            // For each table.\n            // Map the table.'), (H, '''            if (!tableNames.empty())
            {
                fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);
            }
''', ''))
ref('rec-sortref', (H, '[](std::string a, std::string b)', '[](const std::string &a, const std::string &b)'))
ref('rec-sortflip', (H, 'return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());', 'const size_t x = Table::numFromName(a.c_str()), y = Table::numFromName(b.c_str());\n                          return y > x;'))
ref('rec-helper', (H, '    // Constructor.\n    ConcurrentHashMap(const char *fileDir', '''    static bool finished(ValT val)
    {
        return val == VTOMBSTONE || val == VINITIAL || val == TOMBPRIME;
    }
    static void examine(Table *table, bool &untouched, bool &migrationDone)
    {
        size_t i = 0;
        while (i < table->len)
        {
            untouched = untouched && table->key(i) == KINITIAL;
            if (!finished(table->value(i)))
            {
                migrationDone = false;
                return;
            }
            ++i;
        }
    }
    // Constructor.
    ConcurrentHashMap(const char *fileDir'''), (H, '''                for (size_t i = 0; i < table->len; i++)
                {
                    if (table->key(i) != KINITIAL)
                    {
                        untouched = false;
                    }
                    ValT val = table->value(i);
                    // If the value is a tombstone, initial value, or migrated.
                    if (val == VTOMBSTONE ||
                        val == VINITIAL ||
                        val == TOMBPRIME)
                    {
                        // Then migration for this value is complete.
                        continue;
                    }
                    // Migration did not complete.
                    // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
                    else
                    {
                        migrationDone = false;
                        break;
                    }
                }
''', '                examine(table, untouched, migrationDone);\n'))
ref('rec-keepall', (H, 'if (untouched || (migrationDone && tables.empty()))', 'if (untouched)'))
ref('rec-keepcond', (H, 'if (untouched || (migrationDone && tables.empty()))', 'bool keep = !untouched && (!migrationDone || !tables.empty());\n                if (!keep)'))
ref('rec-ifs', (H, 'if (p.is_regular_file() && p.path().extension() == ".dat")\n                {\n                    tableNames.push_back(filenameStr);\n                }', 'if (!p.is_regular_file())\n                    continue;\n                if (p.path().extension() != ".dat")\n                    continue;\n                tableNames.push_back(p.path().string());'))
ref('rec-collect', (H, '            for (auto &p : std::filesystem::directory_iterator(path))\n            {\n                const std::string filenameStr = p.path().string();', '            for (const auto &p : std::filesystem::directory_iterator(fileDir))\n            {\n                std::string filenameStr = p.path().string();'), (H, 'tableNames.push_back(filenameStr);', 'tableNames.emplace_back(std::move(filenameStr));'))
ref('rec-root-if', (H, 'this->table.store(tables.empty() ? Table::mmapTable(true, size) : tables[0]);', 'Table *root;\n            if (tables.size() == 0)\n                root = Table::mmapTable(true, size);\n            else\n                root = tables.front();\n            this->table.store(root);'))

# ---- adapters -----------------------------------------------------------------------------------------
U, S_, PM, CL = 'containers/ucfMap.hpp', 'containers/stlMap.hpp', 'containers/pmemMap.hpp', 'containers/levelMap.hpp'
AD = dict(mods='adapters')
BM = 'ConcurrentHashMap<KeyT, ValT>::BITS_MARKED'
bug('ad-ucf-ins', ['C14'], (U, 'return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);', 'return x == ConcurrentHashMap<KeyT, ValT>::VINITIAL;'), **AD)
bug('ad-ucf-ins2', ['C14'], (U, 'return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);', 'return x != shiftedEl;'), **AD)
bug('ad-ucf-val', ['C14'], (U, 'c->put(shiftedEl, shiftedEl)', 'c->put(shiftedEl, (el << 4) >> 1)'), **AD)
bug('ad-ucf-val2', ['C14'], (U, 'c->put(shiftedEl, shiftedEl)', 'c->put(shiftedEl, el)'), **AD)
bug('ad-ucf-erase', ['C14'], (U, 'return c->remove(el << ' + BM + ');', 'c->remove(el << ' + BM + '); return true;'), **AD)
bug('ad-ucf-erase2', ['C14'], (U, 'return c->remove(el << ' + BM + ');', 'bool r = c->containsKey(el << ' + BM + '); c->remove(el << ' + BM + '); return r;'), **AD)
bug('ad-ucf-get', ['C14'], (U, 'return c->get(el << ' + BM + ') >> ' + BM + ';', 'return (unsigned)(c->get(el << ' + BM + ') >> ' + BM + ');'), **AD)
bug('ad-ucf-get2', ['C14'], (U, 'return c->get(el << ' + BM + ') >> ' + BM + ';', 'return c->get(el << ' + BM + ') & ~7ul;'), **AD)
bug('ad-ucf-get3', ['C14'], (U, 'return c->get(el << ' + BM + ') >> ' + BM + ';', 'return (int64_t)c->get(el << ' + BM + ') >> ' + BM + ';'), **AD)
bug('ad-ucf-key', ['C14'], (U, 'return c->containsKey(el << ' + BM + ');', 'return c->containsKey((uint32_t)el << ' + BM + ');'), **AD)
bug('ad-ucf-cont', ['C14'], (U, 'return c->containsKey(el << ' + BM + ');', 'return c->putIfAbsent(el << ' + BM + ', el << ' + BM + ') == (el << ' + BM + ');'), **AD)
bug('ad-ucf-chk', ['C14'], (U, 'ValT x = c->put(shiftedEl, shiftedEl);', 'if (contains(el)) return false;\n            ValT x = c->put(shiftedEl, shiftedEl); return true;'), **AD)
bug('ad-pm-get', ['C14'], (PM, 'return ValT(v.second);', 'return ValT(v.second) & 0xffffffff;'), **AD)
bug('ad-pm-ins', ['C14'], (PM, 'return pop.root()->pptr->insert(value_type(val, val));', 'pop.root()->pptr->insert(value_type(val, val)); return true;'), **AD)

bug('ad-pm-ins3', ['C14'], (PM, 'return pop.root()->pptr->insert(value_type(val, val));', 'return pop.root()->pptr->insert(value_type(val, val & 0xffffff));'), **AD)
bug('ad-pm-erase', ['C14'], (PM, 'return pop.root()->pptr->erase(val);', 'return !pop.root()->pptr->erase(val);'), **AD)
bug('ad-pm-acc', ['C14'], (PM, 'if (pop.root()->pptr->find(result, el))\n            {\n                value_type v', 'pop.root()->pptr->find(result, el);\n            {\n                value_type v'), **AD)
bug('ad-cl-ins', ['C14'], (CL, 'return (!r.found);', 'return (!r.found || r.expanded);'), **AD)
bug('ad-cl-ins2', ['C14'], (CL, 'return (!r.found);', 'return true;'), **AD)

bug('ad-cl-get2', ['C14'], (CL, 'return r.found ? key : 0;', 'return r.found;'), **AD)
bug('ad-cl-erase', ['C14'], (CL, 'auto r = map->erase(key_type(key), 1);', 'auto r = map->erase(key_type(key), 1);\n            r = map->search(key_type(key));'), **AD)
bug('ad-stl-nolock', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'return c->count(el) > 0;'), **AD)
bug('ad-stl-temp', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'guard_type{global_lock};\n            return c->count(el) > 0;'), **AD)
bug('ad-stl-local', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'mutex_type l; guard_type g(l);\n            return c->count(el) > 0;'), **AD)
bug('ad-stl-other', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'guard_type g(read_lock);\n            return c->count(el) > 0;'), (S_, 'mutex_type global_lock;', 'mutex_type global_lock;\n        mutex_type read_lock;'), **AD)
bug('ad-stl-shared', ['C15'], (S_, 'guard_type g(global_lock);\n            // Get', 'std::shared_lock<std::shared_mutex> g(global_lock);\n            // Get'), (S_, 'using mutex_type = std::mutex;', 'using mutex_type = std::shared_mutex;'), (S_, '#include <mutex>', '#include <mutex>\n#include <shared_mutex>'), **AD)
bug('ad-stl-ref', ['C15'], (S_, 'guard_type g(global_lock);\n            // Get the value.\n            ValT t = (*c)[el];', 'ValT *p;\n            {\n                guard_type g(global_lock);\n                p = &(*c)[el];\n            }\n            ValT t = *p;\n            guard_type g(global_lock);'), **AD)
bug('ad-stl-try', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'std::unique_lock<mutex_type> g(global_lock, std::try_to_lock);\n            return c->count(el) > 0;'), **AD)
bug('ad-stl-leak', ['C15'], (S_, 'guard_type g(global_lock);\n            try\n            {\n                return c->at(el);\n            }\n            catch (const std::out_of_range &oor)\n            {\n                return (ValT)NULL;\n            }', 'global_lock.lock();\n            try\n            {\n                ValT v = c->at(el);\n                global_lock.unlock();\n                return v;\n            }\n            catch (const std::out_of_range &oor)\n            {\n                return (ValT)NULL;\n            }'), **AD)
bug('ad-stl-cond', ['C15'], (S_, 'guard_type g(global_lock);\n            return c->erase(el) == 1;', 'std::unique_lock<mutex_type> g(global_lock, std::defer_lock);\n            if (localThreadNum != 0) g.lock();\n            return c->erase(el) == 1;'), **AD)
bug('ad-stl-split', ['C14'], (S_, 'guard_type g(global_lock);\n            return c->erase(el) == 1;', 'bool r;\n            {\n                guard_type g(global_lock);\n                r = c->count(el) == 1;\n            }\n            guard_type g(global_lock);\n            c->erase(el);\n            return r;'), **AD)
bug('ad-stl-erase', ['C14'], (S_, 'return c->erase(el) == 1;', 'c->erase(el);\n            return c->count(el) == 0;'), **AD)
bug('ad-stl-ins', ['C14'], (S_, 'return c->insert(map_element(el, el)).second;', '(*c)[el] = el;\n            return true;'), **AD)
bug('ad-stl-getins', ['C14'], (S_, 'return c->at(el);', 'return (*c)[el];'), **AD)
ref('ad-ref-find', (S_, 'return c->count(el) > 0;', 'auto it = c->find(el);\n            return it != c->end();'), **AD)
ref('ad-ref-get', (S_, 'return c->at(el);', 'auto it = c->find(el);\n                return it == c->end() ? 0 : it->second;'), **AD)
ref('ad-ref-emplace', (S_, 'return c->insert(map_element(el, el)).second;', 'return c->emplace(el, el).second;'), **AD)
ref('ad-ref-tryemp', (S_, 'return c->insert(map_element(el, el)).second;', 'auto [it, fresh] = c->try_emplace(el, el);\n            return fresh;'), **AD)
ref('ad-ref-chkins', (S_, 'return c->insert(map_element(el, el)).second;', 'if (c->count(el))\n                return false;\n            (*c)[el] = el;\n            return true;'), **AD)
ref('ad-ref-unique', (S_, 'using guard_type = std::lock_guard<mutex_type>;', 'using guard_type = std::unique_lock<mutex_type>;'), **AD)
ref('ad-ref-scoped', (S_, 'using guard_type = std::lock_guard<mutex_type>;', 'using guard_type = std::scoped_lock<mutex_type>;'), **AD)
ref('ad-ref-shared', (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'std::shared_lock<std::shared_mutex> g(global_lock);\n            return c->count(el) > 0;'), (S_, 'using mutex_type = std::mutex;', 'using mutex_type = std::shared_mutex;'), (S_, '#include <mutex>', '#include <mutex>\n#include <shared_mutex>'), **AD)
ref('ad-ref-rec', (S_, 'using mutex_type = std::mutex;', 'using mutex_type = std::recursive_mutex;'), **AD)
ref('ad-ref-manual', (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'global_lock.lock();\n            bool r = c->count(el) > 0;\n            global_lock.unlock();\n            return r;'), **AD)
ref('ad-ref-helper', (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'guard_type g(global_lock);\n            return has(el);'), (S_, '        bool contains(KeyT el)\n', '        bool has(KeyT el)\n        {\n            return c->find(el) != c->end();\n        }\n\n        bool contains(KeyT el)\n'), **AD)
ref('ad-ref-lambda', (S_, 'guard_type g(global_lock);\n            return c->count(el) > 0;', 'return locked([&] { return c->count(el) > 0; });'), (S_, '        bool contains(KeyT el)\n', '        template <class F> auto locked(F f)\n        {\n            guard_type g(global_lock);\n            return f();\n        }\n\n        bool contains(KeyT el)\n'), **AD)
ref('ad-ref-incr', (S_, 'ValT t = (*c)[el];\n            // Increment by 1.\n            t++;\n            // Store that value.\n            (*c)[el] = t;\n            return t;', 'ValT &t = (*c)[el];\n            return ++t;'), **AD)
ref('ad-ref-eraseit', (S_, 'return c->erase(el) == 1;', 'auto it = c->find(el);\n            if (it == c->end())\n                return false;\n            c->erase(it);\n            return true;'), **AD)
ref('ad-ref-ucf', (U, 'return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);', 'return x == ConcurrentHashMap<KeyT, ValT>::VINITIAL || x == ConcurrentHashMap<KeyT, ValT>::VTOMBSTONE;'), **AD)
ref('ad-ref-ucf2', (U, 'return c->containsKey(el << ' + BM + ');', 'return !ConcurrentHashMap<KeyT, ValT>::isValueReserved(c->get(encode(el)));'), (U, '        bool contains(KeyT el)\n', '        static KeyT encode(KeyT el) { return el * 8; }\n        bool contains(KeyT el)\n'), **AD)
ref('ad-ref-ucf3', (U, 'ValT x = c->put(shiftedEl, shiftedEl);', 'ValT x = c->putIfAbsent(shiftedEl, shiftedEl);'), **AD)
ref('ad-ref-pm', (PM, 'value_type v = *result;\n                return ValT(v.second);\n            }\n            return ValT(0);', 'return result->second;\n            }\n            return 0;'), **AD)
ref('ad-ref-pm2', (PM, 'pm::root::map_type::accessor result;\n            return pop.root()->pptr->find(result, el);', 'return pop.root()->pptr->count(el) > 0;'), **AD)
ref('ad-ref-pm3', (PM, 'pm::root::map_type::accessor result;\n            return pop.root()->pptr->find(result, el);', 'root::map_type::const_accessor result;\n            auto &m = *pop.root()->pptr;\n            if (!m.find(result, el)) return false;\n            return true;'), **AD)
ref('ad-ref-cl', (CL, 'return r.found ? key : 0;', 'if (!r.found)\n                return 0;\n            return key;'), **AD)
ref('ad-ref-cl2', (CL, 'return (!r.found);', 'if (r.found)\n                return false;\n            return true;'), **AD)
M = [m for m in M if m]

# ---- more refactorings ------------------------------------------------------------------------------
ref('r2-helper-empty', (H, "(oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME", "noBinding(oldVal) ? TOMBPRIME"),
    (H, "            // Copy a key-value pair from the old table into the new table.\n            bool copySlot(", "            static bool noBinding(Value v)\n            {\n                return v == VTOMBSTONE || v == VINITIAL;\n            }\n            bool copySlot("))
ref('r2-copyslot-dowhile', (H, """                while ((key = oldTable->key(idx)) == KINITIAL)
                {
                    oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                }""", """                do
                {
                    key = oldTable->key(idx);
                    if (key == KINITIAL)
                        oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                } while (key == KINITIAL);"""))
ref('r2-copyslot-casres', (H, """                while ((key = oldTable->key(idx)) == KINITIAL)
                {
                    oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                }""", """                key = oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                if (key == KINITIAL)
                    key = KTOMBSTONE;"""))
ref('r2-copyslot-for', (H, """                    // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);""", """                    Value mark;
                    if (oldVal != VINITIAL && oldVal != VTOMBSTONE)
                        mark = (Value)setMark((uintptr_t)oldVal, MigrationFlag);
                    else
                        mark = TOMBPRIME;"""))
ref('r2-copyslot-invert', (H, """                    if (actualVal == oldVal)
                    {
                        // If we replaced an empty spot.
                        if (mark == TOMBPRIME)
                        {
                            // We are already done.
                            return true;
                        }
                        // Update our record of what's in the old table.
                        oldVal = mark;
                        // More work to do outside of the while loop.
                        break;
                    }
                    else
                    {
                        // We failed. Update the old value for CAS and retry.
                        oldVal = actualVal;
                    }""", """                    if (actualVal != oldVal)
                    {
                        oldVal = actualVal;
                        continue;
                    }
                    if (mark == TOMBPRIME)
                        return true;
                    oldVal = mark;"""))
ref('r2-retire-fn', (H, """                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                // Whoever retires the slot counts it, no matter who copied the value.
                bool retired = (actualVal == oldVal);
                while (actualVal != oldVal)
                {
                    oldVal = actualVal;
                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                }
                // Return""", """                bool retired = retire(oldTable, idx, oldVal);
                // Return"""), (H, "            // Copy a key-value pair from the old table into the new table.\n", """            static bool retire(Table *oldTable, size_t idx, Value oldVal)
            {
                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                bool retired = (actualVal == oldVal);
                while (actualVal != oldVal)
                {
                    oldVal = actualVal;
                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                }
                return retired;
            }
            // Copy a key-value pair from the old table into the new table.
"""))
ref('r2-promote-split', (H, """                if (workDone > 0)
                {
                    // Increment this table's shared work completed counter.
                    this->copyDone.fetch_add(workDone);
                }
                // If all values have been transfered.
                // Attempt table promotion.
                if (copyDone + workDone == oldLen &&
                    hashMap->table.compare_exchange_strong(oldTable, newTable))""", """                if (workDone > 0)
                {
                    copyDone = this->copyDone.fetch_add(workDone);
                }
                bool all = (copyDone + workDone == oldLen);
                if (all &&
                    hashMap->table.compare_exchange_strong(oldTable, newTable))"""))
ref('r2-promote-early-ret', (H, """                if (copyDone + workDone == oldLen &&
                    hashMap->table.compare_exchange_strong(oldTable, newTable))
                {
                    // TODO: Determine when it is safe to deallocate the old table(s).
                    // Perhaps use an atomic counter to track?
                }
                return;""", """                if (copyDone + workDone != oldLen)
                    return;
                hashMap->table.compare_exchange_strong(oldTable, newTable);"""))
ref('r2-promote-plus', (H, "                    this->copyDone.fetch_add(workDone);", "                    this->copyDone += workDone;"))
ref('r2-casnew-simple', (H, """                bool ret;
                Table *oldTable = nullptr;
                while (true)
                {
                    ret = this->newTable.compare_exchange_strong(oldTable, newTable);
                    // If we succeeded here.
                    if (ret ||
                        // If someone else already succeeded here.
                        oldTable != nullptr)
                    {
                        break;
                    }
                }
                return ret;""", """                Table *expected = nullptr;
                return this->newTable.compare_exchange_strong(expected, newTable);"""))
ref('r2-resize-helper', (H, """                // An initial size estimate.
                size_t newSize = size;

                // Heuristic to determine a new size.
                // If we are >25% full of keys.
                if (size >= (oldLen / 4))
                {
                    // Double size.
                    newSize = oldLen << 1;
                    // If we are >50% full of keys.
                    if (size >= (oldLen / 2))
                    {
                        // Effectively quadruple size.
                        newSize = oldLen << 1;
                    }
                }
""", """                size_t newSize = (size >= oldLen / 4) ? oldLen * 2 : size;
"""))
ref('r2-resize-always', (H, """                // The table must always grow.
                if (newSize <= oldLen)
                {""", """                // The table must always grow.
                if (!(newSize > oldLen))
                {"""))
ref('r2-resize-invertcas', (H, """                if (CASNewTable(newTable))
                {
                    // We succeeded.
                }
                else
                {""", """                if (!CASNewTable(newTable))
                {"""))
ref('r2-resize-lambda', (H, """                newTable = this->newTable.load();
                if (newTable != nullptr)
                {
                    assert(newTable->len > oldLen);
                    return newTable;
                }

                // Using""", """                if (Table *other = this->newTable.load())
                {
                    return other;
                }

                // Using"""))
ref('r2-csc-noelse', (H, "                return shouldHelp ? newTable : hashMap->helpCopy(newTable);", "                if (!shouldHelp)\n                    hashMap->helpCopy(newTable);\n                return newTable;"))
ref('r2-csc-work', (H, """                if (copySlot(hashMap, idx, oldTable, newTable))
                {
                    // Record that a slot was copied.
                    // If the work is complete, promote our new table as the main table.
                    copyCheckAndPromote(hashMap, oldTable, 1);
                }""", """                const bool moved = copySlot(hashMap, idx, oldTable, newTable);
                if (moved)
                    copyCheckAndPromote(hashMap, oldTable, 1);"""))
ref('r2-help-chunkfn', (H, """                    size_t workDone = 0;
                    // For each index in our chunk.
                    for (size_t i = 0; i < MIN_COPY_WORK; i++)
                    {
                        // Copy from the old table to the new table.
                        // If we successfully modified the old slot to disallow key replacement.
                        // Note how we "logical and" with oldLen to allow multiple rounds of migration attempts.
                        if (copySlot(hashMap, (copyIdx + i) & (oldLen - 1), oldTable, newTable))
                        {
                            // Count it.
                            workDone++;
                        }
                    }""", """                    size_t workDone = copyChunk(hashMap, copyIdx, MIN_COPY_WORK, oldTable, newTable);"""),
    (H, "            // Help migrate the table.\n", """            size_t copyChunk(ConcurrentHashMap<Key, Value, Hash> *hashMap, size_t from, size_t n, Table *oldTable, Table *newTable)
            {
                size_t done = 0;
                for (size_t i = 0; i < n; i++)
                {
                    size_t slot = (from + i) & (oldTable->len - 1);
                    if (copySlot(hashMap, slot, oldTable, newTable))
                        done++;
                }
                return done;
            }
            // Help migrate the table.
"""))
ref('r2-help-claimfn', (H, """                        copyIdx = this->copyIdx.load();
                        while (copyIdx < (oldLen << 1) &&
                               !this->copyIdx.compare_exchange_strong(copyIdx, copyIdx + MIN_COPY_WORK))
                        {
                        }""", """                        for (copyIdx = this->copyIdx.load(); copyIdx < 2 * oldLen; )
                        {
                            if (this->copyIdx.compare_exchange_weak(copyIdx, copyIdx + MIN_COPY_WORK))
                                break;
                        }"""))
ref('r2-help-mod', (H, "(copyIdx + i) & (oldLen - 1)", "(copyIdx + i) % oldLen"))
ref('r2-help-addeach', (H, """                            workDone++;
""", """                            workDone += 1;
"""))
ref('r2-help-bool', (H, "                    if (panicStart == -1)\n                    {\n                        // Try to claim", "                    if (!panicked)\n                    {\n                        // Try to claim"), (H, "                long panicStart = -1;", "                bool panicked = false;"), (H, "                            panicStart = copyIdx;", "                            panicked = true;"))
ref('r2-help-down', (H, "for (size_t i = 0; i < MIN_COPY_WORK; i++)", "for (size_t i = MIN_COPY_WORK; i-- > 0;)"))
ref('r2-help-report1', (H, """                        {
                            // Count it.
                            workDone++;
                        }
                    }
                    // If we got *something* done.
                    if (workDone > 0)
                    {
                        // Tell the other threads about it.
                        copyCheckAndPromote(hashMap, oldTable, workDone);
                    }""", """                        {
                            copyCheckAndPromote(hashMap, oldTable, 1);
                        }
                    }"""), (H, "                    size_t workDone = 0;\n", ""))
ref('r2-helpcopy-invert', (H, """        if (topTable->chm.newTable.load() == nullptr)
        {
            return helper;
        }
        topTable->chm.helpCopyImpl(this, topTable, false);
        return helper;""", """        if (topTable->chm.newTable.load() != nullptr)
        {
            topTable->chm.helpCopyImpl(this, topTable, false);
        }
        return helper;"""))
ref('r2-get-helper', (H, """                if (!isMarked((uintptr_t)V, MigrationFlag))
                {
                    // No table copy.
                    // We can return the associated value.
                    return (V == VTOMBSTONE) ? VINITIAL : V;
                }

                // Key may only be partially copied.
                // Finish the copy and retry.
                return getImpl(table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL), key, fullHash);""", """                if (isMarked((uintptr_t)V, MigrationFlag))
                {
                    Table *next = table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL);
                    return getImpl(next, key, fullHash);
                }
                return visible(V);"""), (H, "    // Heavy lifting for user-facing get value from key.\n", "    static Value visible(Value v)\n    {\n        if (v == VTOMBSTONE)\n            return VINITIAL;\n        return v;\n    }\n    // Heavy lifting for user-facing get value from key.\n"))
ref('r2-get-lateval', (H, """            Value V = table->value(idx);

            // The key was not present.
            if (K == KINITIAL)
            {
                return VINITIAL;
            }
#ifdef RESIZE""", """
            // The key was not present.
            if (K == KINITIAL)
            {
                return VINITIAL;
            }
#ifdef RESIZE"""), (H, """            if (keyEq(K, key))
            {
                // We found the target key.
#ifdef RESIZE
""", """            if (keyEq(K, key))
            {
                Value V = table->value(idx);
#ifdef RESIZE
"""))
ref('r2-get-newlate', (H, """#ifdef RESIZE
                return (newTable == nullptr) ? VINITIAL : getImpl(helpCopy(newTable), key, fullHash);
#else""", """#ifdef RESIZE
                if (newTable == nullptr)
                    return VINITIAL;
                helpCopy(newTable);
                return getImpl(newTable, key, fullHash);
#else"""))
ref('r2-get-iter', (H, """        size_t reprobeCount = 0;
        while (true)
        {
            // Probe the table.""", """        for (size_t reprobeCount = 0;; idx = (idx + 1) & (len - 1))
        {
            // Probe the table."""), (H, """            // Probe to the next index.
            idx = (idx + 1) & (len - 1);
        }
    }

    // Get the value""", """        }
    }

    // Get the value"""))
ref('r2-get-mask', (H, "        size_t idx = fullHash & (len - 1);", "        const size_t mask = len - 1;\n        size_t idx = fullHash & mask;"), (H, "            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);", "            // Probe to the next index.\n            ++idx;\n            idx &= mask;"))
ref('r2-put-mask', (H, "            // Reprobe.\n            idx = (idx + 1) & (len - 1);", "            // Reprobe.\n            idx = nextIndex(idx, len);"), (H, "    // Check for key equality.\n", "    static size_t nextIndex(size_t i, size_t len)\n    {\n        return (i + 1) % len;\n    }\n    // Check for key equality.\n"))
ref('r2-put-claimfn', (H, """                if (actualKey == KINITIAL)
                {
                    // Mark the slot as used.
                    table->chm.slots.fetch_add(1);
                    break;
                }
                // CAS failed. May need to try again.
                else
                {
                    // Update the expected key with what was actually found during the CAS.
                    K = actualKey;
                }""", """                if (actualKey == KINITIAL)
                {
                    table->chm.slots++;
                    break;
                }
                K = actualKey;"""))
ref('r2-put-noadjust', (H, """                if (oldVal != VINITIAL)
                {
                    // If we removed an initial""", """                const bool migrating = oldVal == VINITIAL;
                if (!migrating)
                {
                    // If we removed an initial"""))
ref('r2-put-wasbound', (H, """                    if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    // If we removed a non-initial and non-tombstone value with a tombstone.
                    else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(-1);
                    }""", """                    const bool was = V != VINITIAL && V != VTOMBSTONE;
                    const bool is = newVal != VTOMBSTONE;
                    if (is && !was)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    if (was && !is)
                    {
                        table->chm.size.fetch_sub(1);
                    }"""))
ref('r2-put-condfn', (H, """            if (oldVal != NO_MATCH_OLD &&
                // And the expected value doesn't match.
                V != oldVal &&
                // And either:
                // We are not looking for a "real" old value.
                // The current value is a tombstone.
                // The current value is the initial value (VINITIAL).
                // (Essentially, any non-value match)
                (oldVal != MATCH_ANY || V == VTOMBSTONE || V == VINITIAL) &&
                // And either the value we wish to assign isn't VINITIAL or we aren't expecting a tombstone
                (V != VINITIAL || oldVal != VTOMBSTONE))""", """            if (!satisfies(V, oldVal))"""), (H, "    // Check for key equality.\n", """    static bool satisfies(Value V, Value oldVal)
    {
        if (oldVal == NO_MATCH_OLD || V == oldVal)
            return true;
        if (oldVal == MATCH_ANY)
            return V != VTOMBSTONE && V != VINITIAL;
        return V == VINITIAL && oldVal == VTOMBSTONE;
    }
    // Check for key equality.
"""))
ref('r2-put-invcas', (H, """            // CAS failed.
            else
            {
                // Update the value with what we found during the failed CAS.
                V = actualValue;
            }
#ifdef RESIZE
            // If a primed value was is present (placed by us or someone else), re-run put on the new table.
            if (isMarked((uintptr_t)table->value(idx), MigrationFlag))""", """            // CAS failed.
            V = actualValue;
#ifdef RESIZE
            if (isMarked((uintptr_t)V, MigrationFlag) || isMarked((uintptr_t)table->value(idx), MigrationFlag))"""))
ref('r2-put-vonly', (H, "            if (isMarked((uintptr_t)table->value(idx), MigrationFlag))", "            if (isMarked((uintptr_t)V, MigrationFlag))"))
ref('r2-put-ret', (H, "                return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : V;", "                if (V != VINITIAL || oldVal == VINITIAL)\n                    return V;\n                return VTOMBSTONE;"))
ref('r2-put-resizefn', (H, """        if (newTable == nullptr &&
            // And we are doing a fresh key insert while the table is nearly full.
            ((V == VINITIAL && table->chm.tableFull(reprobeCount, len)) ||
             // Or our value is marked.
             isMarked((uintptr_t)V, MigrationFlag)))
        {
            // Force the table copy to start.
            newTable = table->chm.resize(this, table);
        }

        // If a new table is allocated.
        if (newTable != nullptr)
        {""", """        const bool full = V == VINITIAL && table->chm.tableFull(reprobeCount, len);
        if (full || isMarked((uintptr_t)V, MigrationFlag))
        {
            newTable = table->chm.resize(this, table);"""))
ref('r2-put-limit', (H, """            if (++reprobeCount >= reprobeLimit(len) ||
                // Or if we run out of space.
                K == KTOMBSTONE)
            {
#ifdef RESIZE
                // Resize""", """            reprobeCount++;
            const bool giveUp = (K == KTOMBSTONE) || reprobeCount >= reprobeLimit(len);
            if (giveUp)
            {
#ifdef RESIZE
                // Resize"""))
ref('r2-put-public', (H, """        Value retVal = putIfMatch(table.load(), key, newVal, oldVal, CAS);
        assert(!isMarked(retVal, MigrationFlag));
        return retVal == VTOMBSTONE ? VINITIAL : retVal;""", """        Table *top = table.load(std::memory_order_acquire);
        const Value seen = putIfMatch(top, key, newVal, oldVal, CAS);
        if (seen == VTOMBSTONE)
            return VINITIAL;
        return seen;"""))
ref('r2-remove-bool', (H, "        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;", "        const Value before = putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);\n        return !(before == VINITIAL);"))
ref('r2-pia', (H, "        return putIfMatch(key, value, VTOMBSTONE);", "        Value r = putIfMatch(key, value, VTOMBSTONE);\n        return r;"))
ref('r2-contains', (H, "        return (get(key) != KINITIAL);", "        Value v = get(key);\n        return v != VINITIAL;"))
ref('r2-incr', (H, """            Key oldValueRef = oldValue;
            if (oldValue == VINITIAL || oldValue == VTOMBSTONE)
            {
                oldValue = 0;
            }
            // Our actual new value here is dependent on the old value.
            // NOTE: The correct way to perform this addition is entirely dependent on the type of Value.
            newValue = ((oldValue >> BITS_MARKED) + 1) << BITS_MARKED;
            // Must""", """            Value oldValueRef = oldValue;
            const bool none = oldValue == VINITIAL || oldValue == VTOMBSTONE;
            const Value base = none ? 0 : oldValue;
            newValue = base + ((Value)1 << BITS_MARKED);
            // Must"""))
ref('r2-pcasread', (P, "static bool pcas(", "static bool pcas("))
ref('r2-table-key', (H, "            Key ret = pcas_read<Key>(&pairs[idx].key);\n            return ret;", "            return pcas_read<Key>(&(pairs + idx)->key);"))
ref('r2-table-cas', (H, "            pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);\n            return oldValueRef;\n        }\n        // Example", "            KVpair &slot = table->pairs[idx];\n            pcas<Value>(&slot.value, oldValueRef, newValue);\n            return oldValueRef;\n        }\n        // Example"))
ref('r2-castable-delegate', (H, """            Value oldValueRef = oldValue;
            pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);
            return oldValueRef;
        }
        // Example""", """            if (pcas<Value>(&table->pairs[idx].value, oldValue, newValue))
                return oldValue;
            return oldValue;
        }
        // Example"""))
ref('r2-mm-init-rev', (H, "                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));\n                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));", "                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));\n                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));"))
ref('r2-mm-initfn', (H, """                for (size_t i = 0; i < tableCapacity; i++)
                {
                    // Initialize these to a default, reserved value.
                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));
                }""", "                initialise(pairs, tableCapacity);"), (H, "        static Table *mmapTable(", """        static void initialise(KVpair *pairs, size_t n)
        {
            for (KVpair *p = pairs; p != pairs + n; ++p)
            {
                p->key.store((Key)setMark(KINITIAL, DirtyFlag));
                p->value.store((Value)setMark(VINITIAL, DirtyFlag));
            }
        }
        static Table *mmapTable("""))
ref('r2-mm-close-early', (H, """                // Ensure the allocation is actually to persistent memory.""", """                close(fd);
                // Ensure the allocation is actually to persistent memory."""), (H, """                    munmap(pairs, length);
                    close(fd);
                    throw std::runtime_error("cannot rename file");""", """                    munmap(pairs, length);
                    throw std::runtime_error("cannot rename file");"""), (H, """                table = new Table(tableCapacity, existingSize, count, pairs);
            }
            // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
            close(fd);
""", """                table = new Table(tableCapacity, existingSize, count, pairs);
                return table;
            }
            // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
            close(fd);
"""))
ref('r2-mm-fail-helper', (H, """                    std::cerr << "Failed to adjust file size." << std::endl;
                    close(fd);
                    throw std::runtime_error("cannot create or open file");""", """                    giveUp(fd, "Failed to adjust file size.");"""), (H, "        static Table *mmapTable(", """        [[noreturn]] static void giveUp(int fd, const char *what)
        {
            std::cerr << what << std::endl;
            close(fd);
            throw std::runtime_error(what);
        }
        static Table *mmapTable("""))
ref('r2-mm-scan-switch', (H, """                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    // Anything left that's not a tombstone.
                    else if (V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.slots.fetch_add(1);
                    }
                    if (V == TOMBPRIME)
                    {
                        retired++;
                    }""", """                    if (V == TOMBPRIME)
                        retired++;
                    else if (V == VINITIAL)
                        table->chm.slots.fetch_add(1);
                    else if (V != VTOMBSTONE)
                        table->chm.size.fetch_add(1);"""))
ref('r2-mm-scan-local', (H, """                        table->chm.size.fetch_add(1);
                    }
                    // Anything left""", """                        live++;
                    }
                    // Anything left"""), (H, "                size_t retired = 0;\n", "                size_t retired = 0, live = 0;\n"), (H, "                table->chm.recoverCopyDone(retired);", "                table->chm.size.store(live);\n                table->chm.recoverCopyDone(retired);"))
ref('r2-unmap', (H, """            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
            delete table;
            return ret;""", """            const size_t bytes = table->len * sizeof(KVpair);
            void *const mem = table->pairs;
            delete table;
            return munmap(mem, bytes) != -1;"""))
ref('r2-pcas-loop', (P, """    while ((oldVal = pcas_read<U>(address)) == oldValCopy)
    {
        // Attempt to CAS.
        if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))
        {
            // The update must be durable before anything relies on it having happened.
            persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));
            return true;
        }
    }
    return false;""", """    const U dirty = (U)((uintptr_t)newVal | DirtyFlag);
    for (;;)
    {
        oldVal = pcas_read<U>(address);
        if (oldVal != oldValCopy)
            return false;
        if (!address->compare_exchange_strong(oldVal, dirty))
            continue;
        persist<U>(address, dirty);
        return true;
    }"""))

X = 'hashing/hash.hpp'
XX = 'hashing/xxhash.hpp'
XO = """        std::array<Type, 1> input{type};
        xxh::hash_t<64> hash = xxh::xxhash<64>(input);
        return ((size_t)hash);"""
ref('hash-direct', (X, XO, '        return (size_t)xxh::xxhash<64>(&type, sizeof(Type));'))
ref('hash-table', (X, XO, """        static const unsigned long t[4] = {3, 5, 7, 9};
        std::array<Type, 1> input{type};
        xxh::hash_t<64> hash = xxh::xxhash<64>(input, 0);
        return (size_t)hash + 0 * t[hash & 3];"""))
ref('hash-fnv', (X, XO, """        size_t h = 14695981039346656037ull;
        const unsigned char *p = (const unsigned char *)&type;
        for (size_t i = 0; i < sizeof(Type); i++)
        {
            h = (h ^ p[i]) * 1099511628211ull;
        }
        return h;"""))
ref('hash-memcpy', (X, XO, """        unsigned char b[sizeof(Type)];
        __builtin_memcpy(b, &type, sizeof b);
        return (size_t)xxh::xxhash<64>(b, sizeof b);"""))
ref('hash-default', (H, 'class Hash = std::hash<Key>', 'class Hash = xxhash<Key>'), (H, '#include "xxhash.hpp"', '#include "hash.hpp"'))
ref('hash-member', (H, 'size_t fullhash = Hash{}(key);', 'const Hash h{};\n        size_t fullhash = h(key);'))
ref('hash-helper', (H, 'size_t fullhash = Hash{}(key);', 'size_t fullhash = hashOf(key);'), (H, 'size_t idx = Hash{}(key) & (len - 1);', 'size_t idx = hashOf(key) & (len - 1);'),
    (H, '    // Constructor.\n    ConcurrentHashMap(const char *fileDir', '    static size_t hashOf(Key k) { return Hash()(k); }\n    // Constructor.\n    ConcurrentHashMap(const char *fileDir'))
bug('hash-seed', ['C18'], (X, XO, """        static const unsigned long seed = (unsigned long)time(nullptr);
        std::array<Type, 1> input{type};
        return (size_t)xxh::xxhash<64>(input, seed);"""), (X, '#include "xxhash.hpp"', '#include "xxhash.hpp"\n#include <ctime>'))
bug('hash-tid', ['C18'], (X, XO, """        static thread_local unsigned long seed = 0;
        std::array<Type, 1> input{type};
        return (size_t)xxh::xxhash<64>(input, seed++ >> 62);"""))
bug('hash-addr', ['C18'], (X, XO, '        return (size_t)xxh::xxhash<64>(&type, sizeof(Type), (size_t)&type >> 47);'))
bug('hash-long', ['C18'], (X, XO, '        return (size_t)xxh::xxhash<64>(&type, (sizeof(Type) + 7) / 8 * 8);'))
bug('hash-ptr', ['C18'], (X, XO, """        const Type *input[1] = {&type};
        return (size_t)xxh::xxhash<64>((const void *)input, sizeof(Type) < 8 ? 8 : sizeof(Type));"""))
bug('hash-uninit', ['C18'], (X, XO, """        unsigned char b[sizeof(Type) < 8 ? 8 : sizeof(Type)];
        __builtin_memcpy(b, &type, sizeof(Type));
        return (size_t)xxh::xxhash<64>(b, sizeof b);"""))
bug('hash-half', ['C18'], (X, XO, '        return (size_t)xxh::xxhash<64>(&type, sizeof(Type) > 8 ? 8 : sizeof(Type));'))
bug('hash-salt', ['C18'], (H, 'size_t fullhash = Hash{}(key);', 'size_t fullhash = Hash{}(key) ^ salt;'), (H, 'size_t idx = Hash{}(key) & (len - 1);', 'size_t idx = (Hash{}(key) ^ salt) & (len - 1);'),
    (H, '    // Constructor.\n    ConcurrentHashMap(const char *fileDir', '    inline static size_t salt = (size_t)time(nullptr);\n    // Constructor.\n    ConcurrentHashMap(const char *fileDir'))
bug('hash-saltm', ['C18'], (H, 'size_t fullhash = Hash{}(key);', 'size_t fullhash = Hash{}(key) ^ salt;'), (H, 'size_t idx = Hash{}(key) & (len - 1);', 'size_t idx = (Hash{}(key) ^ salt) & (len - 1);'),
    (H, '    // Constructor.\n    ConcurrentHashMap(const char *fileDir', '    const size_t salt = (size_t)this >> 12;\n    // Constructor.\n    ConcurrentHashMap(const char *fileDir'))

# ---- third batch of refactorings ----------------------------------------------------------------------
ref('r3-chm-init', (H, '''            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
            {
                this->size.store(existingSize);
                slots.store(tableCapacity);
                this->id = id;
#ifdef RESIZE
                newTable.store(nullptr);
                copyIdx.store(0);
                copyDone.store(0);
#endif
            }
''', '''            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
                : copyIdx(0), copyDone(0), size(existingSize), slots(tableCapacity), id(id), newTable(nullptr)
            {
            }
'''))
ref('r3-table-init', (H, '''        Table(size_t tableCapacity, size_t existingSize, size_t id, KVpair *pairs = NULL)
        {
            assert(tableCapacity % 2 == 0);
            assert(tableCapacity >= MIN_SIZE);
            new (&chm) CHM(tableCapacity, existingSize, id);
            assert(pairs != NULL);
            this->pairs = pairs;
            len = tableCapacity;
            return;
        }
''', '''        Table(size_t tableCapacity, size_t existingSize, size_t id, KVpair *pairs = NULL)
            : pairs(pairs), chm(tableCapacity, existingSize, id), len(tableCapacity)
        {
            assert((tableCapacity & 1) == 0);
            assert(tableCapacity >= MIN_SIZE);
            assert(pairs != NULL);
        }
'''))
ref('r3-num-stoul', (H, '''            // Get the length of the string.
            size_t len = 0;
            while (source[len] != '\\0')
            {
                len++;
            }
            // Work our way to the last ".", which comes just after the num.
            size_t end;
            for (size_t i = len - 1; i >= 0; i--)
            {
                if (source[i] == '.')
                {
                    end = i;
                    break;
                }
            }
            // Work our way to the last "/", which comes just before the num.
            size_t start;
            for (size_t i = len - 1; i >= 0; i--)
            {
                if (source[i] == '/')
                {
                    start = i;
                    break;
                }
            }
            // Copy the characters over to an appropriately sized space, say 30.
            char *dest = (char *)malloc(sizeof(char *) * 30);
            size_t idx = 0;
            for (size_t i = start + 1; i < end; i++)
            {
                dest[idx] = source[i];
                idx++;
            }
            dest[idx] = '\\n';
            // Convert the string to an integer.
            size_t ret = atoi(dest);
            // Return the integer.
            return ret;
''', '''            return std::stoul(std::filesystem::path(source).stem().string());
'''))
ref('r3-num-strlen', (H, '''            size_t len = 0;
            while (source[len] != '\\0')
            {
                len++;
            }
''', '''            size_t len = strlen(source);
'''))
ref('r3-num-strrchr', (H, '''            // Work our way to the last ".", which comes just after the num.
            size_t end;
            for (size_t i = len - 1; i >= 0; i--)
            {
                if (source[i] == '.')
                {
                    end = i;
                    break;
                }
            }
''', '''            size_t end = strrchr(source, '.') - source;
'''))
ref('r3-num-free', (H, '''            size_t ret = atoi(dest);
            // Return the integer.
''', '''            size_t ret = atoi(dest);
            free(dest);
            // Return the integer.
'''))
ref('r3-name-append', (H, '''            return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
''', '''            std::string name = "/mnt/pmem/pm1/tables/";
            name += std::to_string(count);
            name += ".dat";
            return name;
'''))
ref('r3-implicit-load', (H, 'Table *newTable = table->chm.newTable.load();\n#endif\n            // Compare', 'Table *newTable = table->chm.newTable;\n#endif\n            // Compare'),
    (H, 'Table *topTable = this->table.load();\n\n', 'Table *topTable = this->table;\n\n'),
    (H, 'while (copyDone.load() < oldLen)', 'while (copyDone < oldLen)'))
ref('r3-seqcst', (P, 'address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag))', 'address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag), std::memory_order_seq_cst, std::memory_order_seq_cst)'),
    (P, 'U word = address->load();', 'U word = address->load(std::memory_order_seq_cst);'))
ref('r3-acqrel', (P, 'U word = address->load();', 'U word = address->load(std::memory_order_acquire);'))
ref('r3-free-atomics', (P, 'U word = address->load();', 'U word = std::atomic_load(address);'),
    (P, 'address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag))', 'std::atomic_compare_exchange_strong(address, &oldVal, (U)((uintptr_t)newVal | DirtyFlag))'))
ref('r3-keyeq-inline', (H, '''            if (keyEq(K, key))
            {
                // We found the target key.''', '''            if (K == key)
            {
                // We found the target key.'''), (H, '''            if (keyEq(K, key))
            {
                break;''', '''            if (key == K)
            {
                break;'''))
ref('r3-sentinels', (H, 'Value ConcurrentHashMap<Key, Value, Hash>::VINITIAL = ((((size_t)1 << 62) - 1) << BITS_MARKED);', 'Value ConcurrentHashMap<Key, Value, Hash>::VINITIAL = ~(((size_t)1 << BITS_MARKED) - 1);'),
    (H, 'Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);', 'Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = ((((size_t)1 << 62) - 2) << BITS_MARKED) | MigrationFlag;'))
ref('r3-sentinels-inline', (H, '''    static Value MATCH_ANY;
''', '''    static inline Value MATCH_ANY = ((((size_t)1 << 62) - 3) << 3);
'''), (H, '''template <typename Key, typename Value, class Hash>
Value ConcurrentHashMap<Key, Value, Hash>::MATCH_ANY = ((((size_t)1 << 62) - 3) << BITS_MARKED);
''', ''))
ref('r3-ismigrated', (H, '    // Heuristics for resizing.\n', '''    static bool isMigrating(Value v)
    {
        return isMarked((uintptr_t)v, MigrationFlag) != nullptr;
    }
    // Heuristics for resizing.
'''), (H, 'while (!isMarked((uintptr_t)oldVal, MigrationFlag))', 'while (!ConcurrentHashMap::isMigrating(oldVal))'),
    (H, 'if (!isMarked((uintptr_t)V, MigrationFlag))\n                {\n                    // No table', 'if (!isMigrating(V))\n                {\n                    // No table'),
    (H, '             isMarked((uintptr_t)V, MigrationFlag)))', '             isMigrating(V)))'),
    (H, 'if (isMarked((uintptr_t)table->value(idx), MigrationFlag))', 'if (isMigrating(table->value(idx)))'))
ref('r3-slotref', (H, '''            K = table->key(idx);
            V = table->value(idx);

            // If the slot is free.''', '''            KVpair &slot = table->pairs[idx];
            K = pcas_read<Key>(&slot.key);
            V = pcas_read<Value>(&slot.value);

            // If the slot is free.'''))
ref('r3-slotptr', (H, '''            Key K = table->key(idx);
            Value V = table->value(idx);

            // The key was not present.''', '''            KVpair *const slot = table->pairs + idx;
            Key K = pcas_read(&slot->key);
            Value V = pcas_read(&slot->value);

            // The key was not present.'''))
ref('r3-fdguard', (H, '''            // This will hold the memory address of our memory mapped table.
            KVpair *pairs = NULL;
''', '''            struct FdGuard
            {
                int &fd;
                ~FdGuard()
                {
                    if (fd != -1)
                    {
                        close(fd);
                    }
                }
            } guard{fd};
            fd = -1;
            // This will hold the memory address of our memory mapped table.
            KVpair *pairs = NULL;
'''), (H, '''                    fprintf(stderr, "Failed to read the existing file's size.\\n");
                    close(fd);
''', '''                    fprintf(stderr, "Failed to read the existing file's size.\\n");
'''), (H, '''                              << errno << ", " << strerror(errno) << std::endl;
                    close(fd);
                    throw std::logic_error("mmap existing file failed.");''', '''                              << errno << ", " << strerror(errno) << std::endl;
                    throw std::logic_error("mmap existing file failed.");'''),
    (H, '''                    std::cerr << "Failed to adjust file size." << std::endl;
                    close(fd);
''', '''                    std::cerr << "Failed to adjust file size." << std::endl;
'''), (H, '''                    close(fd);
                    throw std::logic_error("mmap new file failed.");''', '''                    throw std::logic_error("mmap new file failed.");'''),
    (H, '''                    munmap(pairs, length);
                    close(fd);
''', '''                    munmap(pairs, length);
'''), (H, '''            close(fd);

            // Return the mapped table.''', '''
            // Return the mapped table.'''))
ref('r3-init-lambda', (H, '''                for (size_t i = 0; i < tableCapacity; i++)
                {
                    // Initialize these to a default, reserved value.
                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));
                }
''', '''                std::for_each(pairs, pairs + tableCapacity, [](KVpair &pair)
                              {
                                  pair.key.store((Key)setMark(KINITIAL, DirtyFlag));
                                  pair.value.store((Value)setMark(VINITIAL, DirtyFlag));
                              });
'''))
ref('r3-init-while', (H, '''                for (size_t i = 0; i < tableCapacity; i++)
                {
                    // Initialize these to a default, reserved value.
                    pairs[i].key.store((Key)setMark(KINITIAL, DirtyFlag));
                    pairs[i].value.store((Value)setMark(VINITIAL, DirtyFlag));
                }
''', '''                const Key emptyKey = (Key)(KINITIAL | DirtyFlag);
                const Value emptyValue = (Value)(VINITIAL | DirtyFlag);
                size_t i = 0;
                while (i != tableCapacity)
                {
                    KVpair &pair = pairs[i++];
                    pair.value = emptyValue;
                    pair.key = emptyKey;
                }
'''))
ref('r3-casnew', (H, '''                bool ret;
                Table *oldTable = nullptr;
                while (true)
                {
                    ret = this->newTable.compare_exchange_strong(oldTable, newTable);
                    // If we succeeded here.
                    if (ret ||
                        // If someone else already succeeded here.
                        oldTable != nullptr)
                    {
                        break;
                    }
                }
                return ret;
''', '''                Table *expected = nullptr;
                while (!this->newTable.compare_exchange_weak(expected, newTable))
                {
                    if (expected != nullptr)
                    {
                        return false;
                    }
                }
                return true;
'''))
ref('r3-newsize', (H, '''                size_t newSize = size;

                // Heuristic to determine a new size.
                // If we are >25% full of keys.
                if (size >= (oldLen / 4))
                {
                    // Double size.
                    newSize = oldLen << 1;
                    // If we are >50% full of keys.
                    if (size >= (oldLen / 2))
                    {
                        // Effectively quadruple size.
                        newSize = oldLen << 1;
                    }
                }
''', '''                size_t newSize = oldLen * 2;
                if (size > oldLen / 2)
                {
                    newSize = oldLen * 4;
                }
'''))
ref('r3-min', (H, 'const size_t MIN_COPY_WORK = (oldLen < 1024) ? oldLen : 1024;', 'const size_t MIN_COPY_WORK = std::min<size_t>(oldLen, 1024);'))
ref('r3-put-iter', (H, '''    Value putIfMatch(Table *table, Key key, Value newVal, Value oldVal,
                     Value CAS(Table *table, size_t idx, Value oldValue, Value newValue) = &Table::CASvalue)
    {
''', '''    Value putIfMatch(Table *table, Key key, Value newVal, Value oldVal,
                     Value CAS(Table *table, size_t idx, Value oldValue, Value newValue) = &Table::CASvalue)
    {
    again:
'''), (H, '                return putIfMatch(newTable, key, newVal, oldVal, CAS);\n', '                table = newTable;\n                goto again;\n'),
    (H, '            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);\n', '            table = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);\n            goto again;\n'),
    (H, '                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);\n', '                table = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);\n                goto again;\n'),)
ref('r3-put-split', (H, '''    // Called by most put functions. This one does the heavy lifting.
''', '''    // Whether a conditional update has to leave the observed value alone.
    static bool conditionFails(Value V, Value oldVal)
    {
        if (oldVal == NO_MATCH_OLD || V == oldVal)
            return false;
        if (oldVal == MATCH_ANY)
            return V == VTOMBSTONE || V == VINITIAL;
        return !(oldVal == VTOMBSTONE && V == VINITIAL);
    }
    // Adjust the element count after an update.
    static void adjustSize(Table *table, Value before, Value after)
    {
        const bool had = before != VINITIAL && before != VTOMBSTONE;
        const bool has = after != VTOMBSTONE;
        if (has && !had)
            table->chm.size++;
        else if (had && !has)
            table->chm.size--;
    }
    // Called by most put functions. This one does the heavy lifting.
'''), (H, '''            if (oldVal != NO_MATCH_OLD &&
                // And the expected value doesn't match.
                V != oldVal &&
                // And either:
                // We are not looking for a "real" old value.
                // The current value is a tombstone.
                // The current value is the initial value (VINITIAL).
                // (Essentially, any non-value match)
                (oldVal != MATCH_ANY || V == VTOMBSTONE || V == VINITIAL) &&
                // And either the value we wish to assign isn't VINITIAL or we aren't expecting a tombstone
                (V != VINITIAL || oldVal != VTOMBSTONE))
''', '''            if (conditionFails(V, oldVal))
'''), (H, '''                    // If we removed an initial or tombstone value with a non-tombstone.
                    if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    // If we removed a non-initial and non-tombstone value with a tombstone.
                    else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(-1);
                    }
''', '''                    adjustSize(table, V, newVal);
'''))
ref('r3-copy-markfn', (H, '''                    // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
''', '''                    const bool empty = oldVal == VINITIAL || oldVal == VTOMBSTONE;
                    const Value mark = empty ? TOMBPRIME : (Value)(oldVal | MigrationFlag);
'''), (H, '''                        if (mark == TOMBPRIME)
                        {
                            // We are already done.''', '''                        if (empty)
                        {
                            // We are already done.'''))
ref('r3-copy-switch', (H, '''                // Try to copy the value from the old table into the new table.
                // The old value should never''', '''                const Value valueToCopy = (Value)(oldVal & ~MigrationFlag);
                // The old value should never'''), (H, '''                Value oldUnmarked = (Value)clearMark((uintptr_t)oldVal, MigrationFlag);
''', ''), (H, 'assert(oldUnmarked != VTOMBSTONE);', 'assert(valueToCopy != VTOMBSTONE);'), (H, 'hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);', 'hashMap->putIfMatch(newTable, key, valueToCopy, VINITIAL);'))
ref('r3-wrappers', (H, '''    Value put(Key key, Value value)
    {
        return putIfMatch(key, value, NO_MATCH_OLD);
    }
''', '''    Value put(Key key, Value value)
    {
        const Value previous = putIfMatch(key, value, NO_MATCH_OLD, &Table::CASvalue);
        return previous;
    }
'''), (H, '        return (putIfMatch(key, newValue, oldValue) == oldValue);', '        const Value seen = putIfMatch(key, newValue, oldValue);\n        if (seen == oldValue)\n            return true;\n        return false;'),
    (H, '        return retVal == VTOMBSTONE ? VINITIAL : retVal;', '        if (retVal == VTOMBSTONE)\n        {\n            retVal = VINITIAL;\n        }\n        return retVal;'))
ref('r3-persist-local', (P, '''    FLUSH(address);
    FENCE;
    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));
    return value;
''', '''    PERSIST(address, sizeof(*address));
    const U clean = (U)((uintptr_t)value & ~DirtyFlag);
    address->compare_exchange_strong(value, clean);
    return value;
'''))
ref('r3-read-early', (P, '''    if (((uintptr_t)word & DirtyFlag) != 0)
    {
        persist(address, word);
    }
    return (U)((uintptr_t)word & ~DirtyFlag);
''', '''    if (!isMarked((uintptr_t)word, DirtyFlag))
    {
        return word;
    }
    persist(address, word);
    return (U)clearMark((uintptr_t)word, DirtyFlag);
'''))
ref('r3-PERSIST-lines', (P, '''    uintptr_t uptr;
    // Loop through cache-line-size (typically 64B) aligned chunks covering the given range.
    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;
''', '''    const uintptr_t begin = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
    const uintptr_t end = ((uintptr_t)addr + len + FLUSH_ALIGN - 1) & ~(FLUSH_ALIGN - 1);
    for (uintptr_t line = begin; line < end; line += FLUSH_ALIGN)
    {
        FLUSH(line);
    }
    FENCE;
'''))
ref('r3-PERSIST-compose', (P, '''    uintptr_t uptr;
    // Loop through cache-line-size (typically 64B) aligned chunks covering the given range.
    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;
''', '''    const char *line = (const char *)((uintptr_t)addr / FLUSH_ALIGN * FLUSH_ALIGN);
    const char *const end = (const char *)addr + len;
    while (line < end)
    {
        FLUSH(line);
        line += FLUSH_ALIGN;
    }
    FENCE;
'''))
ref('r3-ucf-helper', ('containers/ucfMap.hpp', '        ConcurrentHashMap<KeyT, ValT> *c;\n', '        using map_type = ConcurrentHashMap<KeyT, ValT>;\n        map_type *c;\n        static constexpr KeyT encode(KeyT el) { return el << map_type::BITS_MARKED; }\n        static constexpr ValT decode(ValT v) { return v >> map_type::BITS_MARKED; }\n'),
    ('containers/ucfMap.hpp', 'return c->remove(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED);', 'return c->remove(encode(el));'),
    ('containers/ucfMap.hpp', 'return c->get(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED;', 'return decode(c->get(encode(el)));'), mods='adapters')
ref('r3-mmap-split', (H, '        static bool munmapTable(Table *table)\n', '''        // Map a file of the given length; pairs become valid on success.
        static KVpair *mapFile(int fd, size_t length)
        {
            void *p = mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            return p == MAP_FAILED ? nullptr : (KVpair *)p;
        }
        static bool munmapTable(Table *table)
'''), (H, '''                KVpair *pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if ((intptr_t)pairs == -1)
''', '''                KVpair *pairs = mapFile(fd, length);
                if (pairs == nullptr)
'''), (H, '''                pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if ((intptr_t)pairs == -1)
''', '''                pairs = mapFile(fd, length);
                if (pairs == nullptr)
'''))
ref('r3-scan-else', (H, '''                    // Anything that's not a sentinel.
                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    // Anything left that's not a tombstone.
                    else if (V != VTOMBSTONE && V != TOMBPRIME)
                    {
                        table->chm.slots.fetch_add(1);
                    }
                    if (V == TOMBPRIME)
                    {
                        retired++;
                    }
''', '''                    if (V == TOMBPRIME)
                    {
                        retired++;
                    }
                    else if (V == VINITIAL)
                    {
                        table->chm.slots++;
                    }
                    else if (V != VTOMBSTONE)
                    {
                        table->chm.size++;
                    }
'''))
ref('r3-unlink', (H, '                    if (std::remove((*it).c_str()) != 0)\n', '                    if (unlink(it->c_str()) == -1)\n'))
ref('r3-fsremove', (H, '''                    if (std::remove((*it).c_str()) != 0)
                    {
                        fprintf(stderr, "Error deleting file \\"%s\\". Error %d\\n", (*it).c_str(), errno);
                    }
''', '''                    std::error_code error;
                    if (!std::filesystem::remove(*it, error))
                    {
                        fprintf(stderr, "Error deleting file \\"%s\\".\\n", it->c_str());
                    }
'''))
ref('r3-fsrename', (H, 'if (std::rename(tmpName.c_str(), fileName) == -1)', 'if (::rename(tmpName.c_str(), fileName) != 0)'))
ref('r3-helpcopy', (H, '''        Table *topTable = this->table.load();

        // If there is no copy in progress, then there's nothing to be done here.
        if (topTable->chm.newTable.load() == nullptr)
        {
            return helper;
        }
        topTable->chm.helpCopyImpl(this, topTable, false);
        return helper;
''', '''        if (Table *top = this->table.load(); top->chm.newTable.load() != nullptr)
        {
            top->chm.helpCopyImpl(this, top);
        }
        return helper;
'''))
ref('r3-recover-auto', (H, '''            for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
            {
                // Allocate''', '''            for (std::vector<std::string>::const_iterator it = tableNames.cbegin(); it != tableNames.cend(); it++)
            {
                // Allocate'''))
ref('r3-recover-check', (H, '''                // If no key was ever placed in the table, deallocate it and continue.
                bool untouched = true;
                // If the table is fully migrated, deallocate it and continue.
                bool migrationDone = true;
                // Check for non-migrated values.
                for (size_t i = 0; i < table->len; i++)
                {
                    if (table->key(i) != KINITIAL)
                    {
                        untouched = false;
                    }
                    ValT val = table->value(i);
                    // If the value is a tombstone, initial value, or migrated.
                    if (val == VTOMBSTONE ||
                        val == VINITIAL ||
                        val == TOMBPRIME)
                    {
                        // Then migration for this value is complete.
                        continue;
                    }
                    // Migration did not complete.
                    // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
                    else
                    {
                        migrationDone = false;
                        break;
                    }
                }
''', '''                bool untouched = true, migrationDone = true;
                for (size_t i = 0; i < table->len && migrationDone; ++i)
                {
                    untouched = untouched && table->key(i) == KINITIAL;
                    const ValT val = table->value(i);
                    migrationDone = val == VTOMBSTONE || val == VINITIAL || val == TOMBPRIME;
                }
'''))
ref('r3-recover-sep', (H, '''                // Check for non-migrated values.
                for (size_t i = 0; i < table->len; i++)
                {
                    if (table->key(i) != KINITIAL)
                    {
                        untouched = false;
                    }
                    ValT val''', '''                for (size_t i = 0; i < table->len; i++)
                {
                    if (table->key(i) != KINITIAL)
                    {
                        untouched = false;
                        break;
                    }
                }
                // Check for non-migrated values.
                for (size_t i = 0; i < table->len; i++)
                {
                    ValT val'''))
ref('r3-incr', (H, '''            Key oldValueRef = oldValue;
            if (oldValue == VINITIAL || oldValue == VTOMBSTONE)
            {
                oldValue = 0;
            }
            // Our actual new value here is dependent on the old value.
            // NOTE: The correct way to perform this addition is entirely dependent on the type of Value.
            newValue = ((oldValue >> BITS_MARKED) + 1) << BITS_MARKED;
            // Must be CAS rather than FAA because the old value might be a sentinel.
            pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);
            return oldValueRef;
''', '''            const bool absent = oldValue == VINITIAL || oldValue == VTOMBSTONE;
            const Value current = absent ? 0 : oldValue;
            return CASvalue(table, idx, oldValue, current + ((Value)1 << BITS_MARKED));
'''))

# ---- third batch of bugs ------------------------------------------------------------------------------
bug('b3-repl-tomb', ['C01'], (H, '        return (putIfMatch(key, newValue, oldValue) == oldValue);', '        Value seen = putIfMatch(key, newValue, oldValue);\n        return seen == oldValue || seen == newValue;'))
bug('b3-rem-val', ['C01'], (H, 'return putIfMatch(key, VTOMBSTONE, value) == value;', 'return putIfMatch(key, VTOMBSTONE, value) != VINITIAL;'))
bug('b3-rem-val2', ['C01'], (H, 'return putIfMatch(key, VTOMBSTONE, value) == value;', 'return get(key) == value && remove(key);'))
bug('b3-put-ret', ['C01'], (H, 'return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : V;', 'return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : newVal;'))
bug('b3-put-ret2', ['C01'], (H, '        return retVal == VTOMBSTONE ? VINITIAL : retVal;', '        return retVal;'))
bug('b3-get-tomb', ['C01'], (H, 'return (V == VTOMBSTONE) ? VINITIAL : V;\n                }\n\n                // Key may', 'return V;\n                }\n\n                // Key may'))
bug('b3-claim-loser', ['C01', 'C03'], (H, '''                // CAS failed. May need to try again.
                else
                {
                    // Update the expected key with what was actually found during the CAS.
                    K = actualKey;
                }
''', '''                // CAS failed: the slot belongs to somebody else.
                else
                {
                    idx = (idx + 1) & (len - 1);
                    continue;
                }
'''))
bug('b3-claim-loser2', ['C01', 'C05'], (H, '''                    // Update the expected key with what was actually found during the CAS.
                    K = actualKey;
''', '''                    ;
'''))
bug('b3-v-stale', ['C01', 'C03', 'C02'], (H, '''                // Update the value with what we found during the failed CAS.
                V = actualValue;
''', '''                // Try again.
                V = table->value(idx);
                if (V == newVal)
                    return V;
'''))
bug('b3-inc-ret', ['C02'], (H, '            pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);\n            return oldValueRef;\n        }\n        // TODO: Grab', '            pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);\n            return oldValue;\n        }\n        // TODO: Grab'))
bug('b3-inc-reread', ['C02'], (H, '            newValue = ((oldValue >> BITS_MARKED) + 1) << BITS_MARKED;', '            newValue = ((table->value(idx) >> BITS_MARKED) + 1) << BITS_MARKED;'))
bug('b3-inc-ovf', ['C02'], (H, '            newValue = ((oldValue >> BITS_MARKED) + 1) << BITS_MARKED;', '            newValue = (Value)(((uint32_t)(oldValue >> BITS_MARKED) + 1)) << BITS_MARKED;'))
bug('b3-retry-fn2', ['C02'], (H, 'return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);', 'return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);'))
bug('b3-retry-copy', ['C02', 'C04'], (H, '                return putIfMatch(newTable, key, newVal, oldVal, CAS);\n', '                return putIfMatch(newTable, key, newVal, VINITIAL, CAS);\n'))
bug('b3-copy-skipcheck', ['C04'], (H, '                if (copySlot(hashMap, idx, oldTable, newTable))\n', '                if (oldTable->key(idx) != KTOMBSTONE && !isMarked((uintptr_t)oldTable->value(idx), MigrationFlag) && copySlot(hashMap, idx, oldTable, newTable))\n'))
bug('b3-move-nocopy', ['C04'], (H, '''            // Copy the slot and retry in the new table.
            // This is a recursive call to the new table.
            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
''', '''            // Retry in the new table.
            return this->putIfMatch((V == VINITIAL) ? newTable : table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
'''))
bug('b3-copy-tomb', ['C04'], (H, 'hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);', 'hashMap->putIfMatch(newTable, key, oldUnmarked, VTOMBSTONE);'))
ref('r3-eq-copy-exit', (H, '''                while (actualVal != oldVal)
                {
                    oldVal = actualVal;
                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                }
                // Return''', '''                // Return'''))
bug('b3-promote-ge', ['C04'], (H, 'if (copyDone + workDone == oldLen &&', 'if (copyDone + workDone + 1 >= oldLen &&'))
bug('b3-promote-slots', ['C04'], (H, 'if (copyDone + workDone == oldLen &&', 'if (copyDone + workDone >= slots.load() &&'))
bug('b3-help-work', ['C04'], (H, '                        // Tell the other threads about it.\n                        copyCheckAndPromote(hashMap, oldTable, workDone);', '                        // Tell the other threads about it.\n                        copyCheckAndPromote(hashMap, oldTable, MIN_COPY_WORK);'))
bug('b3-help-early', ['C04'], (H, '                            workDone++;\n', '                            workDone++;\n                            if (workDone == MIN_COPY_WORK / 2) copyCheckAndPromote(hashMap, oldTable, workDone);\n'))
bug('b3-get-old', ['C05', 'C04'], (H, 'return getImpl(table->chm.copySlotAndCheck(this, table, idx, key == KINITIAL), key, fullHash);', 'return getImpl(newTable, key, fullHash);'))
bug('b3-get-limit', ['C05'], (H, '            if (++reprobeCount >= reprobeLimit(len) ||\n                // Or if we found', '            if (++reprobeCount >= REPROBE_LIMIT ||\n                // Or if we found'))
bug('b3-get-top', ['C05'], (H, 'Value V = getImpl(table, key, fullhash);', 'Table *top = table.load();\n        if (Table *next = top->chm.newTable.load())\n            top = next;\n        Value V = getImpl(top, key, fullhash);'))
bug('b3-get-lateread', ['C05', 'C04'], (H, '            // Check for the existence of a new table.\n            Table *newTable = table->chm.newTable.load();\n', '            Table *newTable = nullptr;\n            if (reprobeCount == 0)\n                newTable = table->chm.newTable.load();\n'))
bug('b3-get-vtomb', ['C05'], (H, '''            // The key was not present.
            if (K == KINITIAL)
            {
                return VINITIAL;
            }
#ifdef RESIZE
            // Check for''', '''            // The key was not present.
            if (K == KINITIAL || V == VTOMBSTONE)
            {
                return VINITIAL;
            }
#ifdef RESIZE
            // Check for'''))
bug('b3-read-race', ['C06'], (P, '''        persist(address, word);
    }
    return''', '''        word = persist(address, address->load());
    }
    return'''))
bug('b3-value-raw', ['C06'], (H, 'Value ret = pcas_read<Value>(&pairs[idx].value);', 'Value ret = (Value)clearMark((uintptr_t)pairs[idx].value.load(), DirtyFlag);'))
bug('b3-get-fast', ['C06'], (H, '''            Key K = table->key(idx);
            Value V = table->value(idx);

            // The key was not present.''', '''            Key K = (Key)clearMark((uintptr_t)table->pairs[idx].key.load(), DirtyFlag);
            Value V = table->value(idx);

            // The key was not present.'''))
bug('b3-persist-order', ['C06'], (P, '''    FLUSH(address);
    FENCE;
    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));
''', '''    FLUSH(address);
    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));
    FENCE;
'''))
bug('b3-persist-and', ['C06'], (P, '    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));\n', '    address->fetch_and((U)~DirtyFlag);\n'))
ref('r3-eq-pcas-first', (P, '''    while ((oldVal = pcas_read<U>(address)) == oldValCopy)
    {
        // Attempt''', '''    do
    {
        // Attempt'''), (P, '''            return true;
        }
    }
    return false;''', '''            return true;
        }
    } while ((oldVal = pcas_read<U>(address)) == oldValCopy);
    return false;'''))
bug('b3-pcas-old', ['C07'], (P, 'persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));\n            return true;', 'if (((uintptr_t)newVal & MigrationFlag) == 0)\n                persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));\n            return true;'))
bug('b3-copy-late', ['C07', 'C04'], (H, '''                while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                {''', '''                if (oldVal != VINITIAL && oldVal != VTOMBSTONE && !isMarked((uintptr_t)oldVal, MigrationFlag) && CASvalue(oldTable, idx, oldVal, TOMBPRIME) == oldVal)
                {
                    hashMap->putIfMatch(newTable, key, oldVal, VINITIAL);
                    return true;
                }
                while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                {'''))
bug('b3-line-last', ['C08'], (P, '''         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;''', '''         uptr <= (uintptr_t)addr + len - FLUSH_ALIGN;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;'''))
bug('b3-line-count', ['C08'], (P, '''    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;''', '''    uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
    for (size_t n = (len + FLUSH_ALIGN - 1) / FLUSH_ALIGN; n > 0; n--)
    {
        FLUSH(uptr);
        uptr += FLUSH_ALIGN;
    }
    FENCE;'''))
bug('b3-line-flushonly', ['C08'], (P, '''         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
#endif''', '''         uptr < (uintptr_t)addr + (len & ~(FLUSH_ALIGN - 1));
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
#endif'''))
bug('b3-new-rename-first', ['C09'], (H, '                // Persist all keys and values.\n                // Everything else can be inferred upon recovery.\n                PERSIST(pairs, sizeof(KVpair) * tableCapacity);\n', ''),
    (H, '                // Allocate our table.\n                // We pass in the location of our KV pairs', '                PERSIST(pairs, sizeof(KVpair) * tableCapacity);\n                // Allocate our table.\n                // We pass in the location of our KV pairs'))
bug('b3-new-skip', ['C09'], (H, '                // Initialize the new file.\n                for (size_t i = 0;', '                // Initialize the new file.\n                if (tableCapacity > Table::MIN_SIZE)\n                for (size_t i = 0;'))
bug('b3-new-dat', ['C09', 'C11'], (H, '                const std::string tmpName = std::string(fileName) + ".tmp";', '                const std::string tmpName = "/mnt/pmem/pm1/tables/tmp.dat";'))
ref('r3-eq-resize-shrink', (H, '                if (newSize <= oldLen)\n                {\n                    //newSize', '                if (newSize < oldLen)\n                {\n                    //newSize'))
bug('b3-resize-odd', ['C10'], (H, '                        // Effectively quadruple size.\n                        newSize = oldLen << 1;', '                        // Grow with the number of elements.\n                        newSize = oldLen + size;'))
bug('b3-resize-loser', ['C10'], (H, '                    munmapTable(newTable);\n                    // And get the table that was placed.\n                    newTable = this->newTable.load();', '                    Table *mine = newTable;\n                    newTable = this->newTable.load();\n                    munmapTable(newTable);\n                    newTable = mine;'))
bug('b3-resize-winner', ['C10'], (H, '                    // Free the allocated memory.\n                    munmapTable(newTable);\n                    // And get the table that was placed.\n                    newTable = this->newTable.load();', '                    // Use our own.\n'))
bug('b3-mapnew-size', ['C12'], (H, 'newTable = mmapTable(true, newSize, size, filename.c_str());', 'newTable = mmapTable(true, newSize, 0, filename.c_str());'))
bug('b3-mapnew-size2', ['C12'], (H, 'newTable = mmapTable(true, newSize, size, filename.c_str());', 'newTable = mmapTable(true, newSize, slots.load(), filename.c_str());'))
bug('b3-size-table', ['C12'], (H, '                        table->chm.size.fetch_add(-1);', '                        this->table.load()->chm.size.fetch_add(-1);'))
bug('b3-size-public', ['C12'], (H, '        return table->chm.size.load();', '        return table->chm.slots.load();'))
bug('b3-size-inc', ['C12'], (H, '                if (oldVal != VINITIAL)\n                {\n                    // If we removed an initial', '                if (oldVal != VINITIAL && CAS == &Table::CASvalue)\n                {\n                    // If we removed an initial'))
bug('b3-res-prime', ['C13'], (H, 'return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME ||', 'return value == VINITIAL || value == VTOMBSTONE ||'))
bug('b3-res-wide', ['C13'], (H, 'return key == KINITIAL || key == KTOMBSTONE;', 'return key >= KTOMBSTONE;'))
bug('b3-res-wide2', ['C13'], (H, 'return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;', 'return value >= NO_MATCH_OLD;'))
bug('b3-prime', ['C13'], (H, 'Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);', 'Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag | DirtyFlag);'))
bug('b3-bits', ['C13', 'C14'], (H, 'static const size_t BITS_MARKED = 3;', 'static const size_t BITS_MARKED = 1;'))
bug('b3-mark-xor', ['C13'], ('include/marking.hpp', 'return (void *)(p | flag);', 'return (void *)(p ^ flag);'))
bug('b3-flag4', ['C13'], ('include/marking.hpp', 'static const uintptr_t MigrationFlag = 2;', 'static const uintptr_t MigrationFlag = 8;'))
bug('b3-rename-check', ['C16', 'C09'], (H, 'if (std::rename(tmpName.c_str(), fileName) == -1)', 'if (std::rename(tmpName.c_str(), fileName) == -1 && errno != EXDEV)'))
bug('b3-open-0', ['C16'], (H, '''                fd = open(tmpName.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
                if (fd == -1)''', '''                fd = open(tmpName.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
                if (fd == 0)'''))
bug('b3-unmap-neg', ['C16'], (H, 'bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);', 'bool ret = munmap(table->pairs, (sizeof(KVpair) * table->len));'))
bug('b3-unmap-chm', ['C16'], (H, '(munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0)', '(munmap(table->pairs, (sizeof(KVpair) * table->chm.slots.load())) == 0)'))
bug('b3-leak-throw', ['C16'], (H, '                    munmap(pairs, length);\n                    close(fd);\n', '                    munmap(pairs, length);\n'))
bug('b3-idx-hash', ['C17', 'C18'], (H, 'size_t idx = Hash{}(key) & (len - 1);', 'size_t idx = Hash{}(key) % (len + 1);'))
bug('b3-idx-wrap', ['C17'], (H, '            // Reprobe.\n            idx = (idx + 1) & (len - 1);', '            // Reprobe.\n            idx = (idx + 1 > len) ? 0 : idx + 1;'))
bug('b3-idx-mask', ['C17', 'C05'], (H, '            // Probe to the next index.\n            idx = (idx + 1) & (len - 1);', '            // Probe to the next index.\n            idx = (idx + 1) & len;'))
bug('b3-idx-copy', ['C17'], (H, 'if (copySlot(hashMap, (copyIdx + i) & (oldLen - 1), oldTable, newTable))', 'if (copySlot(hashMap, (copyIdx + i) & (newTable->len - 1), oldTable, newTable))'))
bug('b3-hash-len', ['C18', 'C05'], (H, 'size_t idx = Hash{}(key) & (len - 1);', 'size_t idx = (Hash{}(key) ^ table->chm.id) & (len - 1);'))
bug('b3-rec-newname', ['C11'], (H, 'fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);', 'fileNameCounter.store(tableNames.size());'))
bug('b3-rec-linkback', ['C11'], (H, '''                oldTable = newTable;
                newTable = *it;

                if (oldTable''', '''                newTable = oldTable;
                oldTable = *it;

                if (newTable'''))
bug('b3-rec-setdone', ['C11', 'C04'], (H, '            void recoverCopyDone(size_t retired)\n            {\n#ifdef RESIZE\n                copyDone.store(retired);', '            void recoverCopyDone(size_t retired)\n            {\n#ifdef RESIZE\n                copyDone.store(retired);\n                copyIdx.store(retired);'))
bug('b3-rec-tomb', ['C11'], (H, '''                        // Then migration for this value is complete.
                        continue;''', '''                        // Then migration for this value is complete.
                        if (val == VINITIAL && table->key(i) != KINITIAL)
                            Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
                        continue;'''))
bug('b3-rec-marked', ['C11'], (H, '                    if (val == VTOMBSTONE ||\n                        val == VINITIAL ||\n', '                    if (val == VTOMBSTONE ||\n                        val == VINITIAL || isMarked(val, MigrationFlag) ||\n'))

# ---- the clevel container -------------------------------------------------------------------------------
CV = 'include/libpmemobj++/experimental/clevel_hash.hpp'
CLV = dict(mods='clevel')
C19, C20, C21 = ['C19'], ['C20'], ['C21']


def cb(name, props, *edits, **kw):
    bug('cl-' + name, props, *[(CV,) + e for e in edits], mods='clevel', **kw)


def cr(name, *edits, **kw):
    ref('cl-' + name, *[(CV,) + e for e in edits], mods='clevel', **kw)


ER = 'if (CAS(&(f_b.slots[j].p.off), tmp.p.off, 0))\n\t\t\t\t\t\t{\n'
cb('erase-nopersist', C19, (ER + '\t\t\t\t\t\t\tpop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));\n', ER))
cb('erase-persist-meta', C19, (ER + '\t\t\t\t\t\t\tpop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));\n', ER + '\t\t\t\t\t\t\tpop.persist(&(s_b.slots[j].p.off), sizeof(uint64_t));\n') if False else
   ('\t\t\t\t\t\t\tpop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));\n\t\t\t\t\t\t\tsucc_deletion = true;', '\t\t\t\t\t\t\tpop.persist(&(meta.off), sizeof(uint64_t));\n\t\t\t\t\t\t\tsucc_deletion = true;'))
cb('erase-store', C19, (ER, 'if (f_b.slots[j].p.off == tmp.p.off)\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tf_b.slots[j].p = nullptr;\n'))
cb('erase-nokey', C20, ('''					if (key_equal{}(
						tmp.p.get_address(my_pool_uuid)->first, key))
					{
						if (CAS(&(s_b.slots''', '''					{
						if (CAS(&(s_b.slots'''))
cb('erase-reread', C20, (ER, 'if (CAS(&(f_b.slots[j].p.off), f_b.slots[j].p.off, 0))\n\t\t\t\t\t\t{\n'))
cb('erase-noctx', C20, ('\t\tif (m_copy == meta)\n\t\t\treturn ret(succ_deletion);', '\t\treturn ret(succ_deletion);'))
cb('erase-first-only', C20, ('\t\t\tbucket &s_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_u tmp(s_b.slots[j].p.off);',
                            '\t\t\tbucket &s_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 1; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_u tmp(s_b.slots[j].p.off);'))
cb('erase-early', C20, ('succ_deletion = true;', 'succ_deletion = true; if (m_copy == meta && i != 0) return ret(succ_deletion);'))
cb('erase-double-free', C20, ('pmemobj_free(&oid);\n\n\n', 'pmemobj_free(&oid);\n\t\t\t\t\t\t\toid = tmp.p.raw_ptr(my_pool_uuid);\n\t\t\t\t\t\t\tif (i > 0) pmemobj_free(&oid);\n\n'))
cb('erase-free-lost', C20, ('\t\t\t\t\t\telse\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tcontinue;', '\t\t\t\t\t\telse\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tPMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);\n\t\t\t\t\t\t\tpmemobj_free(&oid);\n\t\t\t\t\t\t\tcontinue;'))
cb('erase-lost-true', C20, ('\t\t\t\t\t\telse\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tcontinue;', '\t\t\t\t\t\telse\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tsucc_deletion = true;\n\t\t\t\t\t\t\tcontinue;'))
cb('erase-level', C20, ('\t\t\tnext_li = cl->up;\n\t\t\ti++;\n\t\t}while(li != m->first_level);\n\n\t\t// Context checking.\n\t\tif (m_copy == meta)\n\t\t\treturn ret(succ_deletion);',
                        '\t\t\tnext_li = cl->up;\n\t\t\ti++;\n\t\t}while(li != m->first_level && !succ_deletion);\n\n\t\t// Context checking.\n\t\tif (m_copy == meta)\n\t\t\treturn ret(succ_deletion);'))
SE = '''				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
				if (tmp.x.partial == partial
					&& tmp.p.get_offset() != 0)
				{
					if (key_equal{}(
						tmp.p.get_address(my_pool_uuid)->first, key))
					{
						return ret(i, f_idx, j);'''
cb('search-reread', C20, (SE, SE.replace('\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);\n', '').replace('tmp.', 'f_b.slots[j].')))
cb('search-nokey', C20, (SE, SE.replace('if (key_equal{}(\n\t\t\t\t\t\ttmp.p.get_address(my_pool_uuid)->first, key))', 'if (i > 0 || key_equal{}(\n\t\t\t\t\t\ttmp.p.get_address(my_pool_uuid)->first, key))')))
cb('search-null', C20, (SE, SE.replace('\n\t\t\t\t\t&& tmp.p.get_offset() != 0', '')))
cb('search-noctx', C20, ('\t\tif (m_copy == meta)\n\t\t\treturn ret();', '\t\treturn ret();'))
cb('search-break', C20, (SE, 'if (f_b.slots[j].p.off == 0) break;\n' + SE))
cb('search-one', C20, ('\t\t\tnext_li = cl->up;\n\t\t\ti++;\n\t\t}while(li != m->first_level);\n\n\t\t// Context checking.\n\t\tif (m_copy == meta)\n\t\t\treturn ret();',
                       '\t\t\tnext_li = cl->up;\n\t\t\ti++;\n\t\t}while(next_li != m->first_level && li != m->first_level);\n\n\t\t// Context checking.\n\t\tif (m_copy == meta)\n\t\t\treturn ret();'))
cb('search-hash', C20, ('hv_type hv = hasher{}(key);\n\tpartial_t partial = get_partial(hv);\n\n\twhile(true)\n\t{\n\t\tlevel_meta_ptr_t m_copy(meta);\n\t\tlevel_meta *m = static_cast<level_meta *>(m_copy(my_pool_uuid));\n\n\t\t// Bottom',
                        'hv_type hv = hasher{}(key);\n\tpartial_t partial = get_partial(hv) | 1;\n\n\twhile(true)\n\t{\n\t\tlevel_meta_ptr_t m_copy(meta);\n\t\tlevel_meta *m = static_cast<level_meta *>(m_copy(my_pool_uuid));\n\n\t\t// Bottom'))
cb('search-alt', C20, ('\t\t\tbucket &s_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read', '\t\t\ts_idx = alt_index(partial, s_idx, cl->capacity);\n\t\t\tbucket &s_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read'))
cb('ins-store', C19, ('if (CAS(&(e->off), old_e.raw(), created.p.raw()))', 'if (e->off == old_e.raw() && (e->off = created.p.raw()))'))
cb('ins-nopersist', C19, ('\t\t\t\t\tpop.persist(&(e->off), sizeof(uint64_t));\n\n\t\t\t\t\treturn ret(expanded_flag', '\t\t\t\t\treturn ret(expanded_flag'))
cb('ins-fresh', C20, ('if (CAS(&(e->off), old_e.raw(), created.p.raw()))', 'if (CAS(&(e->off), e->off, created.p.raw()))'))
cb('ins-tag', C20, ('created.x.partial = partial;', 'created.x.partial = partial | 1;'))
cb('ins-notag', C20, ('created.x.partial = partial;', ''))
cb('ins-free', C20, ('\t\t\t\t\tpop.persist(&(e->off), sizeof(uint64_t));\n\n\t\t\t\t\treturn ret(expanded_flag', '\t\t\t\t\tpop.persist(&(e->off), sizeof(uint64_t));\n\t\t\t\t\tif (!check_duplicate) delete_persistent_atomic<value_type>(tmp_entry[t_id]);\n\t\t\t\t\treturn ret(expanded_flag'))
cb('ins-nofree-res', C20, ('\t\t\tdelete_persistent_atomic<value_type>(tmp_entry[t_id]);\n\t\t\treturn ret(level_num, 0, 0);', '\t\t\tdelete_persistent_atomic<value_type>(tmp_entry[t_id]);\n\t\t\treturn ret(expanded_flag, initial_capacity);'))
cb('ins-thread', C20, ('allocate_KV(pop, tmp_entry[t_id], param);', 'allocate_KV(pop, tmp_entry[0], param);'))
cb('ins-second', C20, ('f_idx = first_index(hv, cl->capacity);\n\t\t\ts_idx = second_index(partial, f_idx, cl->capacity);\n\n\t\t\t// flag used to skip vacant slots after finding an empty\n', 'f_idx = first_index(hv, cl->capacity);\n\t\t\ts_idx = second_index(partial, f_idx + 1, cl->capacity);\n\n\t\t\t// flag used to skip vacant slots after finding an empty\n'))
cb('ins-key', C20, ('if (f_b.slots[j].x.partial != partial || !key_equal{}(', 'if (f_b.slots[j].x.partial != partial || false && !key_equal{}('))
cb('exp-cap', C21, ('size_type new_capacity = cl->capacity * 2;', 'size_type new_capacity = cl->capacity + 2;'))
cb('exp-buckets', C21, ('pop, tmp_level[t_id]->buckets, new_capacity);', 'pop, tmp_level[t_id]->buckets, cl->capacity);'))
cb('exp-cap-late', C19, ('\t\tpop.persist(tmp_level[t_id]->capacity);\n', ''))
cb('exp-up', C19, ('\t\ttmp_level[t_id]->up = nullptr;\n\t\tpop.persist(&(tmp_level[t_id]->up.off), sizeof(uint64_t));\n', '\t\ttmp_level[t_id]->up = nullptr;\n'))
cb('exp-relink', C21, ('bool rc = CAS(&(cl->up.off), 0, tmp_level', 'bool rc = CAS(&(cl->up.off), cl->up.off, tmp_level'))
cb('exp-up-persist', C19, ('\t\tpop.persist(&(cl->up.off), sizeof(uint64_t));\n\n\t\t// Update', '\t\t// Update'))
cb('exp-meta-persist', C19, ('if (CAS(&(meta.off), m_copy.off, tmp_meta[t_id].raw().off))\n\t\t\t{\n\t\t\t\tpop.persist(&(meta.off), sizeof(uint64_t));', 'if (CAS(&(meta.off), m_copy.off, tmp_meta[t_id].raw().off))\n\t\t\t{'))
cb('exp-meta-store', C19, ('if (CAS(&(meta.off), m_copy.off, tmp_meta[t_id].raw().off))', 'if (meta == m_copy && (meta.off = tmp_meta[t_id].raw().off))'))
cb('exp-last', C21, ('\t\t\t\t\tcl->up, m->last_level, true);', '\t\t\t\t\tcl->up, m->first_level, true);'))
cb('exp-resizing', C21, ('\t\t\t\t\tcl->up, m->last_level, true);', '\t\t\t\t\tcl->up, m->last_level, false);'))
cb('exp-free-level', C20, ('\t\tif (rc == false)\n\t\t{\n', '\t\tif (rc == false || meta != m_copy)\n\t\t{\n'))
cb('exp-mfree', C20, ('\t\t\t\tpop.persist(&(meta.off), sizeof(uint64_t));\n\n\t\t\t\tstd::cout << "Thread-" << thread_id\n\t\t\t\t\t<< " finishes', '\t\t\t\tpop.persist(&(meta.off), sizeof(uint64_t));\n\t\t\t\tdelete_persistent_atomic<level_meta>(tmp_meta[t_id]);\n\t\t\t\tstd::cout << "Thread-" << thread_id\n\t\t\t\t\t<< " finishes'))
CP = 'if (CAS(&(dst_b1.slots[j].p.off),\n\t\t\t\t\t\t\tdst_tmp.raw(), src_tmp.raw()))\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tpop.persist(&(dst_b1.slots[j].p.off),\n\t\t\t\t\t\t\t\tsizeof(uint64_t));\n'
CLR = '\n\t\t\t\t\t\t\tb.slots[slot_idx].p = nullptr;\n\t\t\t\t\t\t\tpop.persist(&(b.slots[slot_idx].p.off),\n\t\t\t\t\t\t\t\tsizeof(uint64_t));\n'
cb('res-copy-persist', C19, (CP, CP.split('\t\t\t\t\t\t\tpop')[0]))
cb('res-clear-first', C21, (CP, CP.replace('if (CAS', CLR.strip() + '\nif (CAS')))
cb('res-noclear', C21, (CP + CLR, CP))
cb('res-clear-persist', C19, (CP + CLR, CP + '\n\t\t\t\t\t\t\tb.slots[slot_idx].p = nullptr;\n'))
cb('res-word', C21, (CP, CP.replace('src_tmp.raw()', 'src_tmp.get_offset()')))
cb('res-word2', C21, (CP, CP.replace('src_tmp.raw()', 'b.slots[slot_idx].p.raw()')))
cb('res-over', C21, ('if (dst_tmp.get_offset() == 0)\n\t\t\t\t\t{\n\t\t\t\t\t\tif (CAS(&(dst_b2', '{\n\t\t\t\t\t\tif (CAS(&(dst_b2'))
cb('res-idx', C21, ('f_idx = first_index(hv, tl->capacity);\n\t\t\t\ts_idx', 'f_idx = first_index(hv, bl->capacity);\n\t\t\t\ts_idx'))
cb('res-step', C21, ('expand_bucket = expand_bucket + 1;', 'expand_bucket = expand_bucket + 2;'))
cb('res-step-persist', C19, ('\t\t\texpand_bucket = expand_bucket + 1;\n\t\t\tpop.persist(expand_bucket);\n', '\t\t\texpand_bucket = expand_bucket + 1;\n'))
cb('res-slots', C21, ('for (size_type slot_idx = 0; slot_idx < assoc_num; slot_idx++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_t src_tmp', 'for (size_type slot_idx = 0; slot_idx + 1 < assoc_num; slot_idx++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_t src_tmp'))
cb('res-drop', C21, ('if (static_cast<size_type>(expand_bucket) == bl->capacity)', 'if (static_cast<size_type>(expand_bucket) == bl->capacity / 2)'))
cb('res-reset', C21, ('\t\t\t\t\t\texpand_bucket.get_rw() = 0;\n\t\t\t\t\t\tpop.persist(expand_bucket);\n', ''))
cb('res-reset-persist', C19, ('\t\t\t\t\t\texpand_bucket.get_rw() = 0;\n\t\t\t\t\t\tpop.persist(expand_bucket);\n', '\t\t\t\t\t\texpand_bucket.get_rw() = 0;\n'))
cb('res-noretry', C21, ('\t\t\t\t\texpand(pop, thread_id, m_copy);\n\t\t\t\t\tgoto RETRY_REHASH;', '\t\t\t\t\texpand(pop, thread_id, m_copy);'))
cb('res-last', C21, ('m->first_level, bl->up, levels_left != 2);', 'm->first_level, m->first_level, levels_left != 2);'))
cb('res-flag', C21, ('m->first_level, bl->up, levels_left != 2);', 'm->first_level, bl->up, levels_left > 3);'))
cb('res-meta-persist', C19, ('\t\t\t\t\t\tpop.persist(&(meta.off), sizeof(uint64_t));\n\n\t\t\t\t\t\texpand_bucket.get_rw()', '\t\t\t\t\t\texpand_bucket.get_rw()'))
cb('res-stale', C21, ('KV_entry_ptr_t dst_tmp = dst_b1.slots[j].p;\n\t\t\t\t\tif (dst_tmp.get_offset() == 0)\n\t\t\t\t\t{\n\t\t\t\t\t\tif (CAS(&(dst_b1.slots[j].p.off),\n\t\t\t\t\t\t\tdst_tmp.raw()', 'KV_entry_ptr_t dst_tmp = dst_b1.slots[j].p;\n\t\t\t\t\tif (dst_tmp.get_offset() == 0)\n\t\t\t\t\t{\n\t\t\t\t\t\tif (CAS(&(dst_b1.slots[j].p.off),\n\t\t\t\t\t\t\tdst_b1.slots[j].p.raw()'))
# behaviour-preserving edits
cr('search-helper', (SE, SE.replace('return ret(i, f_idx, j);', 'ret found(i, f_idx, j);\n\t\t\t\t\t\treturn found;')))
cr('search-while', ('\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read the slot once: another thread may empty it meanwhile.\n\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);', '\t\t\tfor (size_type j = 0; j != assoc_num; ++j)\n\t\t\t{\n\t\t\t\tuint64_t w = f_b.slots[j].p.off;\n\t\t\t\tKV_entry_ptr_u tmp(w);'))
cr('search-order', ('if (tmp.x.partial == partial\n\t\t\t\t\t&& tmp.p.get_offset() != 0)', 'if (tmp.p.get_offset() != 0 && tmp.x.partial == partial)'))
cr('search-down', ('\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read the slot once: another thread may empty it meanwhile.\n\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);', '\t\t\tfor (size_type k = assoc_num; k > 0; k--)\n\t\t\t{\n\t\t\t\tsize_type j = k - 1;\n\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);'))
cr('search-loop', ('\t\tdo\n\t\t{\n\t\t\tli = next_li;\n\t\t\tlevel_bucket *cl = li.get_address(my_pool_uuid);\n\t\t\tf_idx = first_index(hv, cl->capacity);\n\t\t\ts_idx = second_index(partial, f_idx, cl->capacity);\n\n\t\t\tbucket &f_b = cl->buckets[f_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read',
    '\t\tdo\n\t\t{\n\t\t\tli = next_li;\n\t\t\tlevel_bucket *cl = li.get_address(my_pool_uuid);\n\t\t\tsize_type cap = cl->capacity;\n\t\t\tf_idx = first_index(hv, cap);\n\t\t\ts_idx = second_index(partial, f_idx, cap);\n\n\t\t\tbucket &f_b = cl->buckets[f_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read'))
cr('search-swap', ('bucket &f_b = cl->buckets[f_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read', 'bucket &f_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read'),
   ('bucket &s_b = cl->buckets[s_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read', 'bucket &s_b = cl->buckets[f_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read'))
cr('search-both', ('\t\t\tbucket &f_b = cl->buckets[f_idx];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\t// Read the slot once: another thread may empty it meanwhile.\n\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);\n\t\t\t\tif (tmp.x.partial == partial\n\t\t\t\t\t&& tmp.p.get_offset() != 0)\n\t\t\t\t{\n\t\t\t\t\tif (key_equal{}(\n\t\t\t\t\t\ttmp.p.get_address(my_pool_uuid)->first, key))\n\t\t\t\t\t{\n\t\t\t\t\t\treturn ret(i, f_idx, j);\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tbucket &s_b',
    '\t\t\tfor (difference_type bi : {f_idx, s_idx})\n\t\t\t{\n\t\t\t\tbucket &f_b = cl->buckets[bi];\n\t\t\tfor (size_type j = 0; j < assoc_num; j++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_u tmp(f_b.slots[j].p.off);\n\t\t\t\tif (tmp.x.partial != partial || tmp.p.get_offset() == 0)\n\t\t\t\t\tcontinue;\n\t\t\t\tif (key_equal{}(\n\t\t\t\t\ttmp.p.get_address(my_pool_uuid)->first, key))\n\t\t\t\t\treturn ret(i, bi, j);\n\t\t\t}\n\t\t\t}\n\n\t\t\tbucket &s_b'))
cr('search-hv', ('\thv_type hv = hasher{}(key);\n\tpartial_t partial = get_partial(hv);\n\n\twhile(true)\n\t{\n\t\tlevel_meta_ptr_t m_copy(meta);', '\tconst hv_type hv = hasher{}(key);\n\tconst partial_t partial = static_cast<partial_t>(hv >> 48);\n\n\tfor (;;)\n\t{\n\t\tlevel_meta_ptr_t m_copy(meta);'))
cr('erase-helper', ('PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);\n\t\t\t\t\t\t\tpmemobj_free(&oid);', 'auto drop = [this](KV_entry_ptr_t q) { PMEMoid oid = q.raw_ptr(my_pool_uuid); pmemobj_free(&oid); };\n\t\t\t\t\t\t\tdrop(tmp.p);'))
cr('erase-nocontinue', ('\t\t\t\t\t\telse\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tcontinue;\n\t\t\t\t\t\t}', ''))
cr('erase-noctxcheck', ('''							if (m_copy != meta || (i == 0
								&& f_idx <= expand_bucket
								&& f_idx >= expand_bucket_old))
							{
								continue;
							}
''', ''))
cr('erase-cas-flag', ('if (CAS(&(f_b.slots[j].p.off), tmp.p.off, 0))', 'bool taken = CAS(&(f_b.slots[j].p.off), tmp.p.off, 0);\n\t\t\t\t\t\tif (taken)'))
cr('ins-flag', ('if (result == FOUND_IN_LEFT || result == FOUND_IN_RIGHT)\n\t\t{\n\t\t\tdelete', 'bool found = result == FOUND_IN_LEFT || result == FOUND_IN_RIGHT;\n\t\tif (found)\n\t\t{\n\t\t\tdelete'))
cr('ins-persist-first', ('if (CAS(&(e->off), old_e.raw(), created.p.raw()))\n\t\t\t{\n', 'if (CAS(&(e->off), old_e.raw(), created.p.raw()))\n\t\t\t{\n\t\t\t\tpop.persist(&(e->off), sizeof(uint64_t));\n'))
cr('ins-loop', ('\t\t\t\tgoto RETRY_INSERT;\n\t\t\t}\n\t\t}\n\n\t\t// start expanding', '\t\t\t\tcontinue;\n\t\t\t}\n\t\t}\n\n\t\t// start expanding'))
cr('find-read', ('f_e = f_b.slots[j].p;\n\t\t\t\tif (f_e.get_offset() == 0)', 'KV_entry_ptr_t &here = f_b.slots[j].p;\n\t\t\t\tf_e = here;\n\t\t\t\tif (f_e.get_offset() == 0)'))
cr('find-tag', ('if (f_b.slots[j].x.partial != partial || !key_equal{}(\n\t\t\t\t\tf_e.get_address(my_pool_uuid)->first, key))\n\t\t\t\t\tcontinue;', 'if (f_b.slots[j].x.partial != partial)\n\t\t\t\t\tcontinue;\n\t\t\t\tif (!key_equal{}(f_e.get_address(my_pool_uuid)->first, key))\n\t\t\t\t\tcontinue;'))
cr('fes-break', ('result = VACANCY_IN_LEFT;\n\t\t\t\t\t*e = &(f_b.slots[j].p);\n\t\t\t\t\tlevel_num = i;\n\t\t\t\t\tslot_idx = j;\n\t\t\t\t}', 'result = VACANCY_IN_LEFT;\n\t\t\t\t\t*e = &(f_b.slots[j].p);\n\t\t\t\t\tlevel_num = i;\n\t\t\t\t\tslot_idx = j;\n\t\t\t\t\tbreak;\n\t\t\t\t}'))
cr('exp-shift', ('size_type new_capacity = cl->capacity * 2;', 'size_type new_capacity = cl->capacity << 1;'))
cr('exp-order', ('\t\ttmp_level[t_id]->capacity = new_capacity;\n\t\tpop.persist(tmp_level[t_id]->capacity);\n\t\ttmp_level[t_id]->up = nullptr;', '\t\ttmp_level[t_id]->up = nullptr;\n\t\ttmp_level[t_id]->capacity = new_capacity;\n\t\tpop.persist(tmp_level[t_id]->capacity);'))
cr('exp-onepersist', ('\t\tpop.persist(tmp_level[t_id]->buckets);\n\t\ttmp_level[t_id]->capacity = new_capacity;\n\t\tpop.persist(tmp_level[t_id]->capacity);\n\t\ttmp_level[t_id]->up = nullptr;\n\t\tpop.persist(&(tmp_level[t_id]->up.off), sizeof(uint64_t));', '\t\ttmp_level[t_id]->capacity = new_capacity;\n\t\ttmp_level[t_id]->up = nullptr;\n\t\tpop.persist(&*tmp_level[t_id], sizeof(level_bucket));'))
cr('exp-local', ('tmp_level[t_id]->capacity = new_capacity;', 'level_bucket &nl = *tmp_level[t_id];\n\t\tnl.capacity = new_capacity;'))
cr('exp-oncepersist', ('\t\t\t// Ohter threads finished expanding\n\t\t\tpop.persist(&(cl->up.off), sizeof(uint64_t));\n\n\t\t\tdelete', '\t\t\tdelete'))
cr('exp-nocheck', ('bool rc = CAS(&(cl->up.off), 0, tmp_level[t_id].raw().off);\n\n\t\tif (rc == false)', 'if (!CAS(&(cl->up.off), 0, tmp_level[t_id].raw().off))'))
cr('res-local', ('bucket &b = bl->buckets[expand_bucket.get_ro()];', 'difference_type cur = expand_bucket.get_ro();\n\t\t\tbucket &b = bl->buckets[cur];'), ('expand_bucket = expand_bucket + 1;', 'expand_bucket = cur + 1;'))
cr('res-lambda', (CP + CLR + '\t\t\t\t\t\t\tsucc = true;\n\t\t\t\t\t\t\tbreak;', CP + '\t\t\t\t\t\t\tauto forget = [&]() {' + CLR + '\t\t\t\t\t\t\t};\n\t\t\t\t\t\t\tforget();\n\t\t\t\t\t\t\tsucc = true;\n\t\t\t\t\t\t\tbreak;'))
cr('res-null', ('\t\t\t\tif (e == nullptr)\n\t\t\t\t\tcontinue;\n\n\t\t\t\tdifference_type f_idx, s_idx;\n\t\t\t\tbool succ', '\t\t\t\tif (!e)\n\t\t\t\t\tcontinue;\n\n\t\t\t\tdifference_type f_idx, s_idx;\n\t\t\t\tbool succ'))
cr('res-offset', ('\t\t\t\tvalue_type *e = src_tmp.get_address(my_pool_uuid);\n\t\t\t\tif (e == nullptr)\n\t\t\t\t\tcontinue;\n', '\t\t\t\tif (src_tmp.get_offset() == 0)\n\t\t\t\t\tcontinue;\n\t\t\t\tvalue_type *e = src_tmp.get_address(my_pool_uuid);\n'))
cr('res-while', ('for (size_type slot_idx = 0; slot_idx < assoc_num; slot_idx++)\n\t\t\t{\n\t\t\t\tKV_entry_ptr_t src_tmp', 'size_type slot_nxt = 0;\n\t\t\twhile (slot_nxt < assoc_num)\n\t\t\t{\n\t\t\t\tsize_type slot_idx = slot_nxt++;\n\t\t\t\tKV_entry_ptr_t src_tmp'))
cr('res-casorder', ('bool rc = false;\n\t\t\t\twhile (true)\n\t\t\t\t{', 'bool rc = false;\n\t\t\t\tdo\n\t\t\t\t{'), ('\t\t\t\t\t\tm = static_cast<level_meta *>(m_copy(my_pool_uuid));\n\t\t\t\t\t}\n\t\t\t\t}\n\n\t\t\t\tif (rc)', '\t\t\t\t\t\tm = static_cast<level_meta *>(m_copy(my_pool_uuid));\n\t\t\t\t\t}\n\t\t\t\t} while (!rc);\n\n\t\t\t\tif (rc)'))
