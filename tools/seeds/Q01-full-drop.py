ID='Q01-full-drop'; PROPERTY='Q01'
EDITS=[('kio/sync/mpsc_queue.h','''                for (size_t i = head; i < tail; ++i)
                {''','''                for (size_t i = head; (i - head) < (tail - head) % capacity(); ++i)
                {''')]
NEEDS='a full queue of a type without default constructor is destroyed'
BREAKS='the items left in the queue are not destroyed'
DEMO='''#include <kio/sync/mpsc_queue.h>
static int alive;
struct Item {
    Item() = delete;
    explicit Item(int) { alive++; }
    Item(Item&&) noexcept { alive++; }
    Item& operator=(Item&&) noexcept { return *this; }
    ~Item() { alive--; }
};
int main()
{
    for (int n = 0; n <= 4; n++) {
        { kio::MPSCQueue<Item> q(4); for (int i = 0; i < n; i++) if (!q.try_push(Item(i))) return 2; }
        if (alive) return 1;
    }
    return 0;
}
'''
