#include "disp.hpp"
#include <QCoreApplication>
#include <QThread>
#include <hsmcpp/HsmEventDispatcherQt.hpp>
// all threads of the controlled scheduler are fibers of one thread: tell the dispatcher which one is Qt's main thread
static QThread* mainThread; static QThread* otherThread;
QThread* QThread::currentThread() { return mc::tid() > 0 ? otherThread : mainThread; }
struct Backend {
    typedef HsmEventDispatcherQt Disp;
    static const bool threads = true, foreignTimers = true, eager = false, ownTime = false;
    static int loopTid() { return 0; }
    static int timerTid() { return 0; }
    static std::shared_ptr<Disp> create(size_t cap) { return HsmEventDispatcherQt::create(cap); }
    static void round(Disp*) { QCoreApplication::processEvents(QEventLoop::AllEvents); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
    static void iterate(Disp*) { for (int i = 0; i < 6; ++i) round(nullptr); }
    static void advance(int ms) { mc::advance(ms); }
    static void drop(std::shared_ptr<Disp>& d) { d.reset(); iterate(nullptr); }
};
DISP_SCENARIOS(Backend)
int main(int argc, char** argv) {
    setenv("QT_NO_GLIB", "1", 1);
    static int ac = 1; static char* av[] = {(char*)"d", nullptr};
    QCoreApplication* app = new QCoreApplication(ac, av);
    mainThread = app->thread(); otherThread = new QThread();
    mc::useLibraries = true;
    auto* v = scenarios();
    { auto d = HsmEventDispatcherQt::create(2); d->start(); d.reset(); Backend::iterate(nullptr); }       // registers the event type once
    return mc::main(argc, argv, v->data(), int(v->size()));
}
