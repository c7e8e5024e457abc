// Builds small LoongArch ELF images, and reads them back independently of libloong.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace elfgen {
typedef uint64_t u64;
struct Ehdr { uint8_t ident[16]; uint16_t type, machine; uint32_t version; u64 entry, phoff, shoff; uint32_t flags; uint16_t ehsize, phentsize, phnum, shentsize, shnum, shstrndx; };
struct Phdr { uint32_t type, flags; u64 offset, vaddr, paddr, filesz, memsz, align; };
struct Shdr { uint32_t name, type; u64 flags, addr, offset, size; uint32_t link, info; u64 addralign, entsize; };
struct Sym { uint32_t name; uint8_t info, other; uint16_t shndx; u64 value, size; };
static const uint32_t X = 1, W = 2, R = 4;
struct Seg { u64 vaddr; uint32_t flags; std::string data; u64 memsz; uint32_t type = 1; };
struct Symbol { std::string name; u64 addr, size; uint8_t type = 2; };
struct Image {
	std::vector<Seg> segs; std::vector<Symbol> syms; u64 entry = 0; u64 text_addr = 0, text_size = 0; bool sections = true; bool iplt = false; u64 iplt_gap = 0;
	// file offsets of the parts, for targeted damage
	u64 o_ph = 0, o_sh = 0, o_sym = 0, o_str = 0, o_shstr = 0; int n_sh = 0;
	std::string build() {
		Ehdr e; memset(&e, 0, sizeof e); memcpy(e.ident, "\177ELF\2\1\1", 7); e.type = 2; e.machine = 258; e.version = 1; e.entry = entry; e.ehsize = 64; e.phentsize = 56; e.shentsize = 64;
		e.phnum = segs.size(); e.phoff = o_ph = 64; std::string out(64 + 56 * segs.size(), '\0'); std::vector<Phdr> ph;
		for (auto& s : segs) { while (out.size() % 16) out += '\0'; Phdr p{s.type, s.flags, out.size(), s.vaddr, s.vaddr, s.data.size(), s.memsz ? s.memsz : s.data.size(), 4096}; ph.push_back(p); out += s.data; }
		memcpy(&out[64], ph.data(), 56 * ph.size());
		if (sections) {
			std::string shstr; auto nm = [&](const char* n) { u64 o = shstr.size(); shstr += n; shstr += '\0'; return (uint32_t)o; };
			std::vector<Shdr> sh(1); memset(&sh[0], 0, sizeof sh[0]); nm("");
			u64 toff = 0; for (size_t i = 0; i < segs.size(); i++) if (text_addr >= segs[i].vaddr && text_addr < segs[i].vaddr + segs[i].data.size()) toff = ph[i].offset + text_addr - segs[i].vaddr;
			if (iplt) sh.push_back(Shdr{nm(".iplt"), 1, 6, text_addr - 16 - iplt_gap, toff - 16 - iplt_gap, 16, 0, 0, 4, 0});
			sh.push_back(Shdr{nm(".text"), 1, 6, text_addr, toff, text_size, 0, 0, 4, 0});
			while (out.size() % 8) out += '\0';
			o_sym = out.size(); std::string str(1, '\0'); std::vector<Sym> ss(1); memset(&ss[0], 0, sizeof ss[0]);
			for (auto& s : syms) { ss.push_back(Sym{(uint32_t)str.size(), (uint8_t)(0x10 | s.type), 0, 1, s.addr, s.size}); str += s.name; str += '\0'; }
			out.append((char*)ss.data(), ss.size() * 24); o_str = out.size(); out += str;
			sh.push_back(Shdr{nm(".symtab"), 2, 0, 0, o_sym, ss.size() * 24, (uint32_t)sh.size() + 1, 0, 8, 24});
			sh.push_back(Shdr{nm(".strtab"), 3, 0, 0, o_str, str.size(), 0, 0, 1, 0});
			o_shstr = out.size(); uint32_t n = nm(".shstrtab"); sh.push_back(Shdr{n, 3, 0, 0, o_shstr, shstr.size(), 0, 0, 1, 0}); out += shstr;
			while (out.size() % 8) out += '\0';
			o_sh = out.size(); e.shoff = o_sh; e.shnum = n_sh = sh.size(); e.shstrndx = sh.size() - 1; out.append((char*)sh.data(), sh.size() * 64);
		}
		memcpy(&out[0], &e, 64); return out;
	}
};
} // namespace elfgen
