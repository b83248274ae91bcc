// The kernel side of BTRFS_IOC_TREE_SEARCH_V2, written from the kernel's
// search_ioctl/copy_to_sk: compound key range, transid filter, item count limit,
// buffer limit, EOVERFLOW when the first item does not fit.
#ifndef VERIF_TREESEARCH_H
#define VERIF_TREESEARCH_H
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>
#include <linux/btrfs.h>

namespace ts {
	struct Key {
		uint64_t obj; uint8_t type; uint64_t off;
		bool operator<(const Key &t) const { return std::tie(obj, type, off) < std::tie(t.obj, t.type, t.off); }
		bool operator==(const Key &t) const { return obj == t.obj && type == t.type && off == t.off; }
	};
	struct Item { uint64_t transid; std::vector<uint8_t> data; };
	using Tree = std::map<Key, Item>;

	// Returns 0 or -errno
	inline int search(const Tree &tree, struct btrfs_ioctl_search_args_v2 *a)
	{
		auto &k = a->key;
		uint64_t size = a->buf_size;
		if (size < sizeof(btrfs_ioctl_search_header)) {
			a->buf_size = sizeof(btrfs_ioctl_search_header);
			return -EOVERFLOW;
		}
		if (size > 16 << 20) size = 16 << 20;
		const Key lo { k.min_objectid, uint8_t(k.min_type), k.min_offset };
		const Key hi { k.max_objectid, uint8_t(k.max_type), k.max_offset };
		uint8_t *out = reinterpret_cast<uint8_t *>(a->buf);
		uint64_t used = 0;
		uint32_t found = 0;
		for (auto i = tree.lower_bound(lo); i != tree.end() && !(hi < i->first); ++i) {
			const Item &it = i->second;
			if (it.transid < k.min_transid || it.transid > k.max_transid) continue;
			if (found >= k.nr_items) break;
			const uint64_t need = sizeof(btrfs_ioctl_search_header) + it.data.size();
			if (need > size && !found) {
				a->buf_size = need;
				return -EOVERFLOW;
			}
			if (used + need > size) break;
			btrfs_ioctl_search_header h {};
			h.objectid = i->first.obj;
			h.offset = i->first.off;
			h.type = i->first.type;
			h.transid = it.transid;
			h.len = uint32_t(it.data.size());
			memcpy(out + used, &h, sizeof(h));
			if (!it.data.empty()) memcpy(out + used + sizeof(h), it.data.data(), it.data.size());
			used += need;
			++found;
		}
		k.nr_items = found;
		return 0;
	}
}
#endif
