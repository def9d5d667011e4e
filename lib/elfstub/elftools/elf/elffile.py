"""Stands in for pyelftools, which is not installed: sections of an ELF64 little-endian file."""
import struct
from elftools.common.exceptions import ELFError


class Section:
    def __init__(self, elf, name, header):
        self.elffile, self.stream, self.name, self.header = elf, elf.stream, name, header

    def __getitem__(self, k):
        return self.header[k]

    @property
    def data_size(self):
        return self.header['sh_size']

    @property
    def data_alignment(self):
        return self.header['sh_addralign']

    @property
    def compressed(self):
        return False

    def is_null(self):
        return self.header['sh_type'] == 'SHT_NULL'

    def data(self):
        if self.header['sh_type'] == 'SHT_NOBITS':
            return b'\0' * self.data_size
        self.stream.seek(self.header['sh_offset'])
        return self.stream.read(self.header['sh_size'])


class ELFFile:
    def __init__(self, stream, *_, **__):
        self.stream = stream
        stream.seek(0)
        ident = stream.read(64)
        if ident[:4] != b'\x7fELF':
            raise ELFError('Magic number does not match')
        if ident[4] != 2 or ident[5] != 1:
            raise ELFError('only ELF64 little-endian')
        self.elfclass, self.little_endian = 64, True
        (e_type, machine, version, entry, phoff, shoff, flags, ehsize, phentsize, phnum, shentsize, shnum,
         shstrndx) = struct.unpack_from('<HHIQQQIHHHHHH', ident, 16)
        self.header = dict(e_type=e_type, e_machine=machine, e_shoff=shoff, e_shnum=shnum, e_shentsize=shentsize,
                           e_shstrndx=shstrndx)
        raw = []
        for i in range(shnum):
            stream.seek(shoff + i * shentsize)
            raw.append(struct.unpack('<IIQQQQIIQQ', stream.read(64)))
        stream.seek(raw[shstrndx][4])
        names = stream.read(raw[shstrndx][5])
        kinds = {0: 'SHT_NULL', 1: 'SHT_PROGBITS', 2: 'SHT_SYMTAB', 3: 'SHT_STRTAB', 4: 'SHT_RELA', 8: 'SHT_NOBITS'}
        self._sections = []
        for r in raw:
            name = names[r[0]:names.index(b'\0', r[0])].decode()
            self._sections.append(Section(self, name, dict(
                sh_name=r[0], sh_type=kinds.get(r[1], r[1]), sh_flags=r[2], sh_addr=r[3], sh_offset=r[4], sh_size=r[5],
                sh_link=r[6], sh_info=r[7], sh_addralign=r[8], sh_entsize=r[9])))

    def __getitem__(self, k):
        return self.header[k]

    def num_sections(self):
        return len(self._sections)

    def get_section(self, n):
        return self._sections[n]

    def iter_sections(self, type=None):
        return iter([s for s in self._sections if type is None or s['sh_type'] == type])

    def get_section_by_name(self, name):
        return next((s for s in self._sections if s.name == name), None)

    def get_section_index(self, name):
        return next((i for i, s in enumerate(self._sections) if s.name == name), None)

    def has_section(self, name):
        return self.get_section_by_name(name) is not None

    def close(self):
        self.stream.close()
