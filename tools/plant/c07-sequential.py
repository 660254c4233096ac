PROPERTY = 'C07'
NEEDS = ('the loop is shut down while a slow producer is being loaded')
BREAKS = ('Producers are loaded directly in the background task one after the '
          'other: the cancellation of the task at shutdown is taken for a '
          'failure of the producer, and the task never ends.')
EDITS = [('asyncio', '''                await aio.gather(*input_gens)
                input_gens.clear()''', '''                for gen in input_gens:  # Keep their order
                    await gen
                input_gens.clear()''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.buffer_until_timeout(timeout=0.1)
    async def f(args):
        pass

    async def slow():
        await asyncio.sleep(100)
        return 2
    f.await_(slow())
    await asyncio.sleep(1)
t = threading.Thread(target=lambda: asyncio.run(main()), daemon=True)
t.start()
t.join(5)
check(not t.is_alive(), 'shutdown hangs')
done()
'''
