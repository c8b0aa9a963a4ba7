ID='Q01-free-early'; PROPERTY='Q01'
EDITS=[('kio/sync/mpsc_queue.h','''            // Move the data out of the cell
            item = std::move(*cell->data_ptr());

            // Destroy the in-place object now that we've moved it out
            cell->destroy_in_place();

            // Mark the slot as available for producers again:
            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);
''','''            // Mark the slot as available for producers again:
            cell->sequence.store(pos + mask_ + 1, std::memory_order_release);

            // Move the data out of the cell
            item = std::move(*cell->data_ptr());

            // Destroy the in-place object now that we've moved it out
            cell->destroy_in_place();
''')]
NEEDS='a producer that pushes into a full queue while the consumer is between marking the cell free and moving its item out'
BREAKS='an item still in use is overwritten: one item is popped twice or destroyed twice, another lost'
DEMO='''#include <kio/sync/mpsc_queue.h>
// A push that comes while a pop moves its item out of a full queue has to be refused.
struct Item;
static kio::MPSCQueue<Item>* queue; static bool inside; static bool refused = true;
struct Item {
    int v{0};
    Item() = default;
    explicit Item(int x) : v(x) {}
    Item(Item&& o) noexcept : v(o.v) {}
    Item(const Item&) = default;
    Item& operator=(Item&& o) noexcept;
};
Item& Item::operator=(Item&& o) noexcept
{
    if (inside) { inside = false; refused = !queue->try_push(Item(99)); }
    v = o.v;
    return *this;
}
int main()
{
    kio::MPSCQueue<Item> q(4); queue = &q;
    for (int i = 1; i <= 4; i++) if (!q.try_push(Item(i))) return 2;
    Item it; inside = true;
    if (!q.try_pop(it)) return 3;
    if (it.v != 1 || !refused) return 1;
    for (int i = 2; i <= 4; i++) if (!q.try_pop(it) || it.v != i) return 1;
    return q.try_pop(it) ? 1 : 0;
}
'''
