PROPERTY = 'C03'
NEEDS = ('an awaitable which ends cancelled')
BREAKS = ('A cancelled producer ends the background task.')
EDITS = [
    ('asyncio',
     '            except BaseException:  # noqa\n                logger.exception("Failed to get args from: %r", iterable)\n',
     '            except Exception:\n                logger.exception("Failed to get args from: %r", iterable)\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.extend(args)
    fut = asyncio.get_running_loop().create_future()
    fut.cancel()
    f.await_(fut)
    f(1)
    await asyncio.sleep(100)
    check(got == [1], got)
vrun(main())
done()
'''
