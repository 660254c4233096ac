PROPERTY = 'C03'
NEEDS = ('a function which fails more than five times in a row')
BREAKS = ('After five failures in a row the arguments are dropped.')
EDITS = [
    ('asyncio', '        self.event.set()\n\n        #: Task which', '        self.event.set()\n        #: Number of failures in a row\n        self._failures = 0\n\n        #: Task which'),
    ('asyncio', '                              exc_info=error)\n                return False\n\n        self.event.set()\n        return True\n', '                              exc_info=error)\n                self._failures += 1\n                if self._failures <= 5:\n                    return False\n\n        self._failures = 0\n        self.event.set()\n        return True\n'),
    ('asyncio', '        If an exception is raised, log it with its traceback and return\n', '        If an exception is raised, log it along with its traceback and return\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []
    n = [0]

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        n[0] += 1
        if n[0] < 9:
            raise ValueError
        got.extend(args)
    f(1)
    await asyncio.sleep(100)
    check(got == [1], got)
vrun(main())
done()
'''
