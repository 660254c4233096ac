PROPERTY = 'C03'
NEEDS = ('a function which fails with a TimeoutError')
BREAKS = ('A TimeoutError raised by the function counts as success.')
EDITS = [
    ('asyncio', '            if error is not None:\n                logging', '            if error is not None and not isinstance(error, AioTimeoutError):\n                logging'),
    ('asyncio', '        self.event.set()\n        return True\n\n    def _sched', '        self.event.set()\n        # All of them were processed\n        return True\n\n    def _sched'),
    ('asyncio', '        If an exception is raised, log it with its traceback and return\n        without', '        If an exception is raised, it is logged with its traceback\n        without'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []
    n = [0]

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        n[0] += 1
        if n[0] < 3:
            raise asyncio.TimeoutError
        got.extend(args)
    f(1)
    await asyncio.sleep(100)
    check(got == [1], got)
vrun(main())
done()
'''
