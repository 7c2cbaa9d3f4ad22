SEEDS = [
 ('sample-restarts-after-close', 'C14', 'Stream.py', [('''        self.__done = True
        self.__sample_loop_task.cancel()
        self.__sample_loop_task = None
''', '''        self.__sample_loop_task.cancel()
        self.__sample_loop_task = None
''')], '''
import asyncio
from nion.utils import Stream
loop = asyncio.new_event_loop()
s = Stream.ValueStream(1).add_ref()
m = Stream.SampleStream(s, 0.01, loop).add_ref()
async def wait(t):
    await asyncio.sleep(t)
loop.run_until_complete(wait(0.025))
m.remove_ref()
loop.run_until_complete(wait(0.05))
left = [t for t in asyncio.all_tasks(loop) if not t.done()]
for t in left:
    t.cancel()
loop.run_until_complete(wait(0.0)) if not left else None
n = len(left)
import os
os._exit(1 if n else 0)
''', 'the event loop running on after the stream was closed', 'the cancelled sampling task starts the next one, which nobody cancels'),
 ('promise-has-value-early', 'C17', 'Promise.py', [('''        return self.__value is not None
''', '''        return self.__fn is not None
''')], '''
from nion.utils import Promise
p = Promise.Promise(lambda: 3)
assert not p.has_value
assert p.value == 3 and p.has_value
''', 'asking whether there is a value before and after evaluation', 'the answer is the wrong way round'),
 ('property-stream-no-source-close', 'C14', 'Stream.py', [('''        if self.__property_changed_listener:
            self.__property_changed_listener.close()
            self.__property_changed_listener = None
        self.__source_stream_listener.close()
''', '''        self.__property_changed_listener.close()
        self.__property_changed_listener = None
        self.__source_stream_listener.close()
''')], '''
from nion.utils import Stream
s = Stream.ValueStream(None).add_ref()
n = s.ref_count
m = Stream.PropertyChangedEventStream(s, "p").add_ref()
try:
    m.remove_ref()
except AttributeError:
    pass
assert s.ref_count == n and s.value_stream.listener_count == 0, (s.ref_count, n)
''', 'closing a property stream whose source object is absent at that time', 'closing fails half way and the source stream stays referenced'),
]
