
edits = [('containers/stlMap.hpp', """        bool contains(KeyT el)
        {
            guard_type g(global_lock);
            return c->count(el) > 0;
""", """        bool contains(KeyT el)
        {
            // Nothing to look for in an empty container.
            if (c->empty())
            {
                return false;
            }
            guard_type g(global_lock);
            return c->find(el) != c->end();
""")]
meta = dict(property='C15', needs='a lookup that runs while another thread holds the lock and changes the tree', what_it_breaks='the tree is read without the lock')
demo = r'''
#include "demo.hpp"
#include <map>
#include "containers/stlMap.hpp"
TestOptions::TestOptions() {}
int main()
{
    TestOptions o;
    stl::container_type c(o);
    std::atomic<bool> done{false};
    c.global_lock.lock();
    std::thread t([&] { c.contains(1); done = true; });
    for (int i = 0; i < 50 && !done; i++)
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
    bool early = done;
    c.global_lock.unlock();
    t.join();
    return demo::check(!early, "an operation ran while another thread held the lock");
}
'''
